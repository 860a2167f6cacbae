//! Extracts functions from the sources of daab, normalises them into the subset of Rust that Verus verifies and
//! weaves in their contracts.
mod cfg;
mod norm;
mod print;
mod shape;
mod spec;
mod texts;
mod types;

use print::{Blocks, Out, Piece};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use spec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;
use types::*;

fn base_of(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => base_of(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

fn impl_key(i: &ItemImpl) -> String {
    let ty = base_of(&i.self_ty);
    match &i.trait_ {
        Some((_, p, _)) => {
            let l = p.segments.last().unwrap();
            if l.ident == "From" {
                // several of these for one type
                let first = |a: &PathArguments| match a {
                    PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| if let GenericArgument::Type(t) = x { Some(base_of(t)) } else { None }),
                    _ => None,
                };
                let of = first(&l.arguments).unwrap_or_default();
                let gen: Vec<String> = i.generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect();
                let mark = match &*i.self_ty {
                    Type::Path(t) => match first(&t.path.segments.last().unwrap().arguments) {
                        Some(f) if f == "DynBuilder" => "<dyn>".to_string(),
                        Some(f) if !gen.contains(&f) => format!("<{}>", f),
                        _ => String::new(),
                    },
                    _ => String::new(),
                };
                return format!("{}{} as From<{}>", ty, mark, of);
            }
            if p.segments.len() == 2 && p.segments[0].ident == "root" {
                return format!("{} as root::{}", ty, l.ident);
            }
            format!("{} as {}", ty, l.ident)
        }
        None => ty,
    }
}

/// The impls that `derive` makes, for the structs whose specification says `#expand`.
fn expand_derives(v: &mut Vec<Item>, attrs: &HashMap<String, Vec<String>>) {
    let mut new: Vec<Item> = vec![];
    for i in v.iter() {
        let s = match i {
            Item::Struct(s) => s,
            _ => continue,
        };
        if !attrs.get(&format!("struct {}", s.ident)).map(|a| a.iter().any(|x| x.trim() == "#expand")).unwrap_or(false) {
            continue;
        }
        let n = &s.ident;
        let fs: Vec<Member> = s.fields.members().collect();
        for d in &s.attrs {
            let ps = match d.parse_args_with(punctuated::Punctuated::<Path, Token![,]>::parse_terminated) {
                Ok(p) => p,
                Err(_) => continue,
            };
            for p in ps {
                let t = p.segments.last().unwrap().ident.clone();
                let mut g = s.generics.clone();
                for q in g.type_params_mut() {
                    q.bounds.push(parse_quote!(#t));
                    q.default = None;
                    q.eq_token = None;
                }
                let (ig, tg, w) = g.split_for_impl();
                new.push(match t.to_string().as_str() {
                    "Copy" | "Eq" => parse_quote!(impl #ig #t for #n #tg #w { }),
                    "Clone" => {
                        let b: Expr = match &s.fields {
                            Fields::Named(_) => parse_quote!(#n { #(#fs: self.#fs.clone()),* }),
                            Fields::Unnamed(_) => parse_quote!(#n(#(self.#fs.clone()),*)),
                            Fields::Unit => parse_quote!(#n),
                        };
                        parse_quote!(impl #ig Clone for #n #tg #w { fn clone(&self) -> Self { #b } })
                    }
                    "PartialEq" => {
                        let mut b: Expr = parse_quote!(true);
                        for (k, m) in fs.iter().enumerate() {
                            b = if k == 0 { parse_quote!(self.#m == other.#m) } else { parse_quote!(#b && self.#m == other.#m) };
                        }
                        parse_quote!(impl #ig PartialEq for #n #tg #w { fn eq(&self, other: &Self) -> bool { #b } })
                    }
                    "Hash" => parse_quote!(impl #ig Hash for #n #tg #w { fn hash<H: Hasher>(&self, state: &mut H) { #(self.#fs.hash(state);)* } }),
                    _ => continue,
                });
            }
        }
    }
    v.extend(new);
}

fn expand_full(items: Vec<Item>, out: &mut Vec<Item>) {
    for i in items {
        match i {
            Item::Mod(m) => {
                if let Some((_, c)) = m.content {
                    expand_full(c, out);
                }
            }
            Item::Use(_) | Item::Macro(_) | Item::ExternCrate(_) => {}
            i => out.push(i),
        }
    }
}

/// Replaces whole identifiers in specification text.
fn subst(s: &str, m: &HashMap<String, String>) -> String {
    if m.is_empty() {
        return s.to_string();
    }
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_alphabetic() || c == '_' || c == '$' {
            let st = i;
            i += 1;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            let w: String = cs[st..i].iter().collect();
            // not a field or method name
            let prev = out.trim_end().chars().last();
            if prev == Some('.') {
                out.push_str(&w);
            } else {
                out.push_str(m.get(&w).unwrap_or(&w));
            }
        } else {
            out.push(c);
            i += 1;
        }
    }
    out
}

fn words(s: &str) -> HashSet<String> {
    let mut out = HashSet::new();
    let mut w = String::new();
    let mut prev = ' ';
    for c in s.chars().chain(" ".chars()) {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            if !w.is_empty() {
                let x = std::mem::take(&mut w);
                // not a field or method name
                if prev != '.' {
                    out.insert(x);
                }
                prev = ' ';
            }
            if !c.is_whitespace() {
                prev = c;
            }
        }
    }
    out
}

struct Locals(Vec<String>);
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if !n.starts_with("__") && !n.chars().next().unwrap().is_uppercase() {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
}

/// `let x = &mut self.f;` where x is nothing but a name for that field in the rest of the block
fn field_let(s: &Stmt, rest: &[Stmt]) -> Option<(Ident, Expr)> {
    let l = if let Stmt::Local(l) = s { l } else { return None };
    let id = match &l.pat {
        Pat::Ident(p) if p.by_ref.is_none() && p.mutability.is_none() => p.ident.clone(),
        _ => return None,
    };
    let place = match &*l.init.as_ref()?.expr {
        Expr::Reference(r) if r.mutability.is_some() => (*r.expr).clone(),
        _ => return None,
    };
    let mut e = &place;
    let mut fields = 0;
    while let Expr::Field(f) = e {
        e = &f.base;
        fields += 1;
    }
    if fields == 0 || !matches!(e, Expr::Path(p) if p.path.is_ident("self")) {
        return None;
    }
    struct Bad<'b>(&'b Ident, bool);
    impl<'b, 'a> Visit<'a> for Bad<'b> {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.1 |= p.ident == *self.0;
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            fn has(t: proc_macro2::TokenStream, x: &Ident) -> bool {
                t.into_iter().any(|t| match t {
                    proc_macro2::TokenTree::Ident(i) => i == *x,
                    proc_macro2::TokenTree::Group(g) => has(g.stream(), x),
                    _ => false,
                })
            }
            self.1 |= has(m.tokens.clone(), self.0);
        }
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
            self.1 |= matches!(&*a.left, Expr::Path(p) if p.path.is_ident(self.0));
            visit::visit_expr_assign(self, a);
        }
        fn visit_expr_struct(&mut self, s: &'a ExprStruct) {
            self.1 |= s.fields.iter().any(|f| f.colon_token.is_none() && matches!(&f.member, Member::Named(n) if n == self.0));
            visit::visit_expr_struct(self, s);
        }
    }
    let mut bad = Bad(&id, false);
    rest.iter().for_each(|s| bad.visit_stmt(s));
    if bad.1 {
        return None;
    }
    Some((id, place))
}
/// Puts the place in for the reference to it.
struct PutPlace(Ident, Expr);
impl PutPlace {
    fn is(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.is_ident(&self.0))
    }
}
impl VisitMut for PutPlace {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let place = self.1.clone();
        match e {
            Expr::MethodCall(m) if self.is(&m.receiver) => {
                *m.receiver = place;
                m.args.iter_mut().for_each(|a| self.visit_expr_mut(a));
            }
            Expr::Field(f) if self.is(&f.base) => *f.base = place,
            Expr::Index(x) if self.is(&x.expr) => {
                *x.expr = place;
                self.visit_expr_mut(&mut x.index);
            }
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) if self.is(expr) => *e = place,
            x if self.is(x) => *x = parse_quote!((&mut #place)),
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// Makes coercions to raw pointers explicit, `let p: *const T = e;` is `let p = e as *const T;`; and (in the containers)
/// puts a local that merely borrows the content in for its name.
fn ptr_lets(b: &mut Block, cans: bool) {
    struct Put(Ident, Expr);
    impl VisitMut for Put {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if matches!(e, Expr::Path(p) if p.path.is_ident(&self.0)) {
                *e = self.1.clone();
            } else {
                visit_mut::visit_expr_mut(self, e);
            }
        }
    }
    struct V(bool);
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut i = 0;
            while i < b.stmts.len() {
                let mut put = None;
                if let Stmt::Local(l) = &mut b.stmts[i] {
                    if let (Pat::Type(p), Some(init)) = (&l.pat, &mut l.init) {
                        let t = (*p.ty).clone();
                        if matches!(t, Type::Ptr(_)) && init.diverge.is_none() {
                            let e = init.expr.clone();
                            let pat = (*p.pat).clone();
                            init.expr = parse_quote!(#e as #t);
                            l.pat = pat;
                        }
                    }
                    let id = match &l.pat {
                        Pat::Ident(p) if p.by_ref.is_none() && p.mutability.is_none() => Some(p.ident.clone()),
                        Pat::Type(t) => match &*t.pat {
                            Pat::Ident(p) if p.by_ref.is_none() && p.mutability.is_none() => Some(p.ident.clone()),
                            _ => None,
                        },
                        _ => None,
                    };
                    if let (true, Some(id), Some(init)) = (self.0, id, &l.init) {
                        let s = init.expr.to_token_stream().to_string().replace(' ', "");
                        if ["&**self", "self.deref()", "self.as_ref()"].contains(&s.as_str()) {
                            put = Some((id, parse_quote!(self.deref())));
                        }
                    }
                }
                if let Some((id, e)) = field_let(&b.stmts[i], &b.stmts[i + 1..]) {
                    b.stmts.remove(i);
                    let mut p = PutPlace(id, e);
                    b.stmts[i..].iter_mut().for_each(|s| p.visit_stmt_mut(s));
                } else if let Some((id, e)) = put {
                    b.stmts.remove(i);
                    let mut p = Put(id, e);
                    b.stmts[i..].iter_mut().for_each(|s| p.visit_stmt_mut(s));
                } else {
                    i += 1;
                }
            }
            visit_mut::visit_block_mut(self, b);
        }
        fn visit_expr_cast_mut(&mut self, c: &mut ExprCast) {
            if self.0 && matches!(&*c.ty, Type::Ptr(_)) {
                let x = match &*c.expr {
                    Expr::MethodCall(m) if m.method == "as_ref" && m.args.is_empty() => Some((*m.receiver).clone()),
                    Expr::Reference(r) if r.mutability.is_none() => match &*r.expr {
                        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => match &**expr {
                            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => Some((**expr).clone()),
                            _ => None,
                        },
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(x) = x {
                    c.expr = parse_quote!(#x.deref());
                }
            }
            visit_mut::visit_expr_cast_mut(self, c);
        }
    }
    V(cans).visit_block_mut(b);
}

/// Makes unsizing coercions of smart pointers explicit: at typed lets and at the result of the function.
fn coerce(b: &mut Block, ret: &ReturnType) {
    let ptr = |t: &Type| {
        let s = t.to_token_stream().to_string().replace(' ', "");
        s == "Self" || s == "Self::Bin" || (s.starts_with("<Selfas") && s.ends_with("::Bin")) || ["Rc<", "Arc<", "Box<"].iter().any(|p| s.starts_with(p)) || ["RcAny", "ArcAny", "BoxAny"].contains(&s.as_str())
    };
    struct Lets<F>(F);
    impl<F: Fn(&Type) -> bool> VisitMut for Lets<F> {
        fn visit_local_mut(&mut self, l: &mut Local) {
            visit_mut::visit_local_mut(self, l);
            if let (Pat::Type(p), Some(i)) = (&l.pat, &mut l.init) {
                if (self.0)(&p.ty) {
                    let e = i.expr.clone();
                    *i.expr = parse_quote!((#e).v_co());
                }
            }
        }
    }
    Lets(ptr).visit_block_mut(b);
    fn tail(b: &mut Block) {
        match b.stmts.last_mut() {
            Some(Stmt::Expr(Expr::Block(x), None)) => tail(&mut x.block),
            Some(Stmt::Expr(e, None)) => {
                let x = e.clone();
                *e = parse_quote!((#x).v_co());
            }
            _ => {}
        }
    }
    /// the elements of the tuple that is the result
    fn tails(b: &mut Block, ptrs: &[bool]) {
        match b.stmts.last_mut() {
            Some(Stmt::Expr(Expr::Block(x), None)) => tails(&mut x.block, ptrs),
            Some(Stmt::Expr(Expr::Tuple(t), None)) if t.elems.len() == ptrs.len() => {
                for (e, p) in t.elems.iter_mut().zip(ptrs) {
                    if *p {
                        let x = e.clone();
                        *e = parse_quote!((#x).v_co());
                    }
                }
            }
            _ => {}
        }
    }
    if let ReturnType::Type(_, t) = ret {
        if ptr(t) {
            tail(b);
        }
        if let Type::Tuple(t) = &**t {
            let ptrs: Vec<bool> = t.elems.iter().map(|t| ptr(t) || matches!(t, Type::Path(p) if p.path.segments.len() == 1 && p.path.segments[0].ident == "DynBuilderBin")).collect();
            tails(b, &ptrs);
        }
    }
}

/// Numbers the loops and inserts the placeholders.
struct Loops {
    n: usize,
    descr: Vec<String>,
    vars: Vec<(String, String)>,
    /// what `$acc`, `$b`, `$n` stand for
    accs: Vec<String>,
    depth: usize,
}
/// the local the loop collects into: the kind of the loop
fn loop_kind(body: &Block, it: &str) -> (String, String) {
    struct V {
        push: Vec<String>,
        flag: Vec<String>,
        count: Vec<String>,
    }
    fn name(e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) if p.path.segments.len() == 1 && p.path.segments[0].ident != "self" => Some(p.path.segments[0].ident.to_string()),
            _ => None,
        }
    }
    impl<'a> Visit<'a> for V {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            let f = m.method.to_string();
            if f == "v_push" || f == "push" || f == "insert" {
                if let Some(n) = name(&m.receiver) {
                    self.push.push(n);
                }
            }
            visit::visit_expr_method_call(self, m);
        }
        fn visit_block(&mut self, b: &'a Block) {
            for w in b.stmts.windows(2) {
                if let (Stmt::Expr(Expr::Assign(a), _), Stmt::Expr(Expr::Break(_), _)) = (&w[0], &w[1]) {
                    if let (Some(n), Expr::Lit(_)) = (name(&a.left), &*a.right) {
                        self.flag.push(n);
                    }
                }
            }
            visit::visit_block(self, b);
        }
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
            if let (Some(n), Expr::Binary(b)) = (name(&a.left), &*a.right) {
                if name(&b.left).as_ref() == Some(&n) {
                    self.count.push(n);
                }
            }
            visit::visit_expr_assign(self, a);
        }
    }
    let mut v = V { push: vec![], flag: vec![], count: vec![] };
    v.visit_block(body);
    let n = it.trim_start_matches("__it");
    for (k, l) in [("acc", &v.push), ("bool", &v.flag), ("count", &v.count)] {
        if let Some(x) = l.first() {
            return (k.to_string(), x.clone());
        }
    }
    ("each".to_string(), format!("__acc{}", n))
}
impl Loops {
    fn mark(&mut self, body: &mut Block, cond: &str, it: String, x: String) -> usize {
        let k = self.n;
        self.n += 1;
        let (kind, acc) = loop_kind(body, &it);
        let kind = if it.starts_with("__it") { kind } else if cond.starts_with("let ") { "while let".to_string() } else if cond == "loop" { "loop".to_string() } else { "while".to_string() };
        self.descr.push(format!("{}{}", "  ".repeat(self.depth), kind));
        self.accs.push(acc);
        self.vars.push((it, x));
        let spec = format!("loop{}.spec", k);
        let begin = format!("loop{}.begin", k);
        let end = format!("loop{}.end", k);
        self.depth += 1;
        visit_mut::visit_block_mut(self, body);
        self.depth -= 1;
        if let Some(Stmt::Expr(e, s)) = body.stmts.last_mut() {
            if s.is_none() && !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Block(_) | Expr::Loop(_)) {
                *s = Some(Default::default());
            }
        }
        body.stmts.insert(0, parse_quote!(__loop_spec!(#spec);));
        body.stmts.insert(1, parse_quote!(__ghost!(#begin);));
        body.stmts.push(parse_quote!(__ghost!(#end);));
        k
    }
}
impl VisitMut for Loops {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            let k0 = self.n;
            let is_loop = matches!(&s, Stmt::Expr(Expr::While(_), _) | Stmt::Expr(Expr::Loop(_), _));
            self.visit_stmt_mut(&mut s);
            if is_loop {
                let (p, a) = (format!("loop{}.before", k0), format!("loop{}.after", k0));
                b.stmts.push(parse_quote!(__ghost!(#p);));
                b.stmts.push(s);
                b.stmts.push(parse_quote!(__ghost!(#a);));
            } else {
                b.stmts.push(s);
            }
        }
    }
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        let c = w.cond.to_token_stream().to_string();
        let (mut it, mut x) = (String::new(), String::new());
        if let Expr::Let(l) = &*w.cond {
            if let Expr::MethodCall(m) = &*l.expr {
                it = m.receiver.to_token_stream().to_string().replace(' ', "");
            }
            if let Pat::TupleStruct(t) = &*l.pat {
                x = t.elems.first().map(|p| p.to_token_stream().to_string()).unwrap_or_default();
            }
        }
        let mut b = w.body.clone();
        self.mark(&mut b, &c, it, x);
        w.body = b;
    }
    fn visit_expr_loop_mut(&mut self, w: &mut ExprLoop) {
        let mut b = w.body.clone();
        self.mark(&mut b, "loop", String::new(), String::new());
        w.body = b;
    }
}

/// Which loop of the source is which loop of the specification: keeps the order and the nesting.
fn align(base: &[String], cur: &[String]) -> HashMap<usize, usize> {
    let depth = |s: &str| s.len() - s.trim_start().len();
    let fam = |s: &str| if s.trim().starts_with("while") || s.trim() == "loop" { 0 } else { 1 };
    let score = |a: &str, b: &str| -> i32 {
        if depth(a) != depth(b) || fam(a) != fam(b) { -1000 } else if a == b { 3 } else { 1 }
    };
    let (n, m) = (base.len(), cur.len());
    let mut d = vec![vec![0i32; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            d[i][j] = d[i + 1][j].max(d[i][j + 1]).max(d[i + 1][j + 1] + score(&base[i], &cur[j]));
        }
    }
    let (mut i, mut j) = (0, 0);
    let mut r = HashMap::new();
    while i < n && j < m {
        let sc = score(&base[i], &cur[j]);
        if sc > 0 && d[i][j] == d[i + 1][j + 1] + sc {
            r.insert(i, j);
            i += 1;
            j += 1;
        } else if d[i][j] == d[i + 1][j] {
            i += 1;
        } else {
            j += 1;
        }
    }
    r
}

/// "loop3.begin" with the numbers of the loops of the source
fn realign(k: &str, al: &HashMap<usize, usize>) -> Option<String> {
    if let Some(r) = k.strip_prefix("loop") {
        let (n, rest) = r.split_once('.')?;
        let n: usize = n.parse().ok()?;
        return al.get(&n).map(|j| format!("loop{}.{}", j, rest));
    }
    Some(k.to_string())
}

struct Closures(usize);
impl<'a> Visit<'a> for Closures {
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        if norm::contracted(c).is_none() {
            self.0 += 1;
        }
    }
}

/// Replaces a type parameter (and objects of its trait) by one opaque type.
struct Erase {
    param: String,
    ty: String,
    tr: String,
    of: Vec<String>,
    n: usize,
}
impl Erase {
    fn target(&self, args: &PathArguments) -> Type {
        let id = format_ident!("{}", self.ty);
        if let PathArguments::AngleBracketed(_) = args {
            parse_quote!(#id #args)
        } else {
            parse_quote!(#id<ArtCan, BCan>)
        }
    }
}
impl VisitMut for Erase {
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        g.params = std::mem::take(&mut g.params).into_iter().filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == self.param)).collect();
        if let Some(w) = &mut g.where_clause {
            w.predicates = std::mem::take(&mut w.predicates)
                .into_iter()
                .filter(|p| !matches!(p, WherePredicate::Type(t) if { let b = &t.bounded_ty; quote!(#b).to_string() == self.param }))
                .collect();
            if w.predicates.is_empty() {
                g.where_clause = None;
            }
        }
        visit_mut::visit_generics_mut(self, g);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        let new = match t {
            Type::Path(p) if p.qself.is_none() && p.path.is_ident(self.param.as_str()) => Some(self.target(&PathArguments::None)),
            Type::TraitObject(o) => match o.bounds.first() {
                Some(TypeParamBound::Trait(b)) if b.path.segments.last().unwrap().ident == self.tr => Some(self.target(&b.path.segments.last().unwrap().arguments)),
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = new {
            *t = n;
        }
    }
    fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
        visit_mut::visit_path_segment_mut(self, s);
        if self.of.iter().any(|o| s.ident == o) {
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                let n = self.n;
                let mut k = 0;
                a.args = std::mem::take(&mut a.args)
                    .into_iter()
                    .filter(|x| {
                        if matches!(x, GenericArgument::Type(_)) {
                            k += 1;
                        }
                        !matches!(x, GenericArgument::Type(_)) || k <= n
                    })
                    .collect();
            }
        }
    }
}

/// Replaces `Self::X` by what the impl defines X as.
struct SelfAssoc<'a>(&'a [ImplItem]);
impl<'a> VisitMut for SelfAssoc<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                let n = &p.path.segments[1].ident;
                if let Some(d) = self.0.iter().find_map(|x| if let ImplItem::Type(d) = x { if d.ident == *n { Some(d.ty.clone()) } else { None } } else { None }) {
                    *t = d;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

struct Ctx {
    sp: Spec,
    /// types with a destructor that has no contract
    droppers: HashSet<String>,
    decls: Decls,
    helpers: HashMap<(String, String), norm::Helper>,
    demote: HashSet<String>,
    noghost: HashSet<String>,
    /// add an unprovable clause to every function and loop, to see that their contexts are not contradictory
    smoke: bool,
    spinoff: HashSet<String>,
    /// functions under contract (by what their calls look like)
    contracts: HashSet<(String, String)>,
    flip: HashSet<String>,
    baseline: Value,
    record: serde_json::Map<String, Value>,
    report: BTreeMap<String, Value>,
    bound: HashMap<String, String>,
    rlimit: String,
}

fn sig_shape(s: &Signature) -> String {
    let ins: Vec<String> = s
        .inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(r) => format!("{}self{}", r.reference.is_some(), r.mutability.is_some()),
            FnArg::Typed(t) => t.ty.to_token_stream().to_string(),
        })
        .collect();
    format!("{}->{}", ins.join(","), s.output.to_token_stream())
}

fn clauses(v: &[Clause], kind: &str, m: &HashMap<String, String>) -> Vec<Piece> {
    v.iter()
        .map(|c| Piece { kind: kind.into(), tags: c.tags.clone(), text: c.text.iter().map(|t| subst(t, m)).collect() })
        .collect()
}

fn kw(s: &str) -> Piece {
    Piece { kind: "kw".into(), tags: String::new(), text: vec![s.into()] }
}

fn section(out: &mut Vec<Piece>, name: &str, v: Vec<Piece>) {
    if v.is_empty() {
        return;
    }
    out.push(kw(name));
    for mut p in v {
        let l = p.text.last_mut().unwrap();
        if !l.trim_end().ends_with(',') {
            l.push(',');
        }
        out.push(p);
    }
}

impl Ctx {
    /// Prints one function with its contract.
    fn function(&mut self, out: &mut Out, key: &str, sig: &Signature, block: Option<&Block>, selfty: &str, vis: bool, file: &str, is_trait_impl: bool) {
        let bkey = self.bound.get(key).cloned().unwrap_or_else(|| key.to_string());
        let sp = self.sp.fns.get(&bkey).cloned();
        out.nl();
        out.func = key.to_string();
        out.file = file.to_string();
        let start = out.lines.len() + 1;
        let mut degraded: Vec<String> = vec![];
        let sp_ = sp.clone().unwrap_or_default();
        // parameter names
        let mut names: Vec<String> = vec![];
        for a in &sig.inputs {
            if let FnArg::Typed(t) = a {
                names.push(t.pat.to_token_stream().to_string().replace("mut ", ""));
            }
        }
        let mut m: HashMap<String, String> = HashMap::new();
        if sp.is_some() && !sp_.params.is_empty() {
            if sp_.params.len() != names.len() {
                degraded.push(format!("{} has {} parameters instead of {}", key, names.len(), sp_.params.len()));
            }
            for (a, b) in sp_.params.iter().zip(names.iter()) {
                if a != b {
                    m.insert(a.clone(), b.clone());
                }
            }
        }
        // body
        let mut blocks: Blocks = BTreeMap::new();
        let mut body: Option<Block> = None;
        let mut demoted = self.demote.contains(key);
        let mut inlined = vec![];
        let mut soft: Vec<String> = vec![];
        let mut nloops = 0;
        let mut sig_ = sig.clone();
        let mut own_self = false;
        if let Some(FnArg::Receiver(r)) = sig_.inputs.first_mut() {
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
                own_self = true;
            }
        }
        let sig = &sig_;
        if let Some(b) = block {
            let mut b = b.clone();
            shape::LoopShapes.visit_block_mut(&mut b);
            if sp_.ghost.contains_key("exit") {
                let opt = matches!(&sig.output, ReturnType::Type(_, t) if t.to_token_stream().to_string().starts_with("Option"));
                if let Some(x) = shape::unescape(&b, opt) {
                    b = x;
                }
            }
            let mut env = HashMap::new();
            if own_self {
                // `mut self`: a local variable of its own
                let id = format_ident!("__own");
                norm::RenameSelf(id.clone()).visit_block_mut(&mut b);
                b.stmts.insert(0, parse_quote!(let mut #id = self;));
                env.insert(id.to_string(), T::of(&parse_str::<Type>(selfty).unwrap(), selfty));
            }
            for a in &sig.inputs {
                if let FnArg::Typed(t) = a {
                    if let Pat::Ident(i) = &*t.pat {
                        env.insert(i.ident.to_string(), T::of(&t.ty, selfty));
                    }
                }
            }
            let mut n = norm::Norm {
                decls: &self.decls,
                helpers: &self.helpers,
                selfty: selfty.to_string(),
                boxany: self.sp.boxany.contains(selfty),
                env,
                fresh: 0,
                depth: 0,
                inlined: vec![],
                flip: &self.flip,
                fname: key.to_string(),
                nmap: 0,
                maypanic: !sp_.maypanic.is_empty(),
                has_loops: !sp_.loops.is_empty(),
                texts: self.sp.texts,
                stack: vec![],
                opaque: vec![],
                calls: &self.contracts,
            };
            // the expected type of a tail collect() is not known, Vec is assumed
            ptr_lets(&mut b, matches!(selfty, "RcAny" | "ArcAny" | "BoxAny"));
            n.visit_block_mut(&mut b);
            inlined = n.inlined.clone();
            for o in n.opaque.iter() {
                soft.push(format!("calls {}, which has no contract", o));
            }
            if !self.droppers.is_empty() {
                let all = format!("{} {} {}", quote!(#sig), quote!(#b), selfty);
                for w in all.split(|c: char| !(c.is_alphanumeric() || c == '_')) {
                    if self.droppers.contains(w) {
                        soft.push(format!("the destructor of {} runs where the proof does not see it", w));
                        break;
                    }
                }
            }
            let mut cl = Closures(0);
            cl.visit_block(&b);
            if cl.0 > 0 {
                soft.push("a closure is left".to_string());
            }
            if matches!(selfty, "RcAny" | "ArcAny" | "BoxAny") {
                coerce(&mut b, &sig.output);
            }
            let mut l = Loops { n: 0, descr: vec![], vars: vec![], accs: vec![], depth: 0 };
            l.visit_block_mut(&mut b);
            nloops = l.n;
            let mut lv = Locals(vec![]);
            lv.visit_block(&b);
            let locals = lv.0;
            self.record.insert(key.to_string(), json!({"locals": locals, "loops": l.descr}));
            let ref_ = self.baseline.get(&bkey).cloned().unwrap_or(Value::Null);
            let cur: HashSet<String> = locals.iter().cloned().collect();
            let bl: Vec<String> = ref_["locals"].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default();
            let mut used: HashSet<String> = HashSet::new();
            for c in sp_.ghost.values().flatten() {
                c.text.iter().for_each(|t| used.extend(words(t)));
            }
            for c in sp_.loops.values().flat_map(|x| x.values()).flatten() {
                c.text.iter().for_each(|t| used.extend(words(t)));
            }
            let missing: BTreeSet<String> = bl.iter().filter(|n| used.contains(*n) && !cur.contains(*n)).cloned().collect();
            if !missing.is_empty() {
                if bl.len() == locals.len() {
                    for (a, c) in bl.iter().zip(locals.iter()) {
                        if a != c {
                            m.insert(a.clone(), c.clone());
                        }
                    }
                } else {
                    // the bindings of the same rank among the names not in common
                    let bset: HashSet<String> = bl.iter().cloned().collect();
                    let mut bu: Vec<String> = vec![];
                    for x in &bl { if !cur.contains(x) && !bu.contains(x) { bu.push(x.clone()); } }
                    let mut cu: Vec<String> = vec![];
                    for x in &locals { if !bset.contains(x) && !cu.contains(x) { cu.push(x.clone()); } }
                    if bu.len() == cu.len() {
                        for (a, c) in bu.iter().zip(cu.iter()) {
                            m.insert(a.clone(), c.clone());
                        }
                    } else {
                        degraded.push(format!("local variables {:?} not found", missing));
                    }
                }
            }
            let anyloopspec = sp_.loops.keys().max().map(|k| k + 1).unwrap_or(0);
            let bloops: Option<Vec<String>> = ref_["loops"].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect());
            let al: HashMap<usize, usize> = match &bloops {
                Some(bl) => align(bl, &l.descr),
                None => (0..nloops.max(anyloopspec)).map(|k| (k, k)).collect(),
            };
            if let Some(bl) = &bloops {
                if bl != &l.descr {
                    soft.push(format!("other loops than before ({} instead of {})", nloops, bl.len()));
                }
                if al.len() < nloops && sp.is_some() {
                    degraded.push("loop without invariants".to_string());
                }
            }
            let placeholders = |mm: &mut HashMap<String, String>, k: usize, suffix: &str| {
                if let Some((it, x)) = al.get(&k).and_then(|j| l.vars.get(*j)) {
                    let acc = &l.accs[al[&k]];
                    mm.insert(format!("$it{}", suffix), it.clone());
                    mm.insert(format!("$acc{}", suffix), acc.clone());
                    mm.insert(format!("$b{}", suffix), acc.clone());
                    mm.insert(format!("$n{}", suffix), acc.clone());
                    mm.insert(format!("$x{}", suffix), x.clone());
                }
            };
            for k in 0..anyloopspec {
                placeholders(&mut m, k, &k.to_string());
            }
            if !degraded.is_empty() && nloops > 0 {
                // anchors are lost: no annotations inside the body
                demoted = !std::env::args().any(|a| a == "--show");
            }
            if !self.noghost.contains(key) {
                for (k, v) in &sp_.ghost {
                    let mut mm = m.clone();
                    mm.insert("$ret".into(), "__ret".into());
                    if let Some(n) = k.strip_prefix("loop").and_then(|s| s.split('.').next()).and_then(|s| s.parse::<usize>().ok()) {
                        placeholders(&mut mm, n, "");
                    }
                    if let Some(k) = realign(k, &al) {
                        blocks.insert(k, clauses(v, "ghost", &mm));
                    }
                }
            }
            if !sp_.maypanic.is_empty() {
                let mut ps = vec![];
                for mut p in clauses(&sp_.maypanic, "ghost", &m) {
                    p.text.insert(0, "proof { assert(".into());
                    p.text.push("); }".into());
                    ps.push(p);
                }
                blocks.insert("maypanic".into(), ps);
            }
            for (k, v) in &sp_.loops {
                let mut mm = m.clone();
                placeholders(&mut mm, *k, "");
                let k = match al.get(k) {
                    Some(k) => k,
                    None => continue,
                };
                let mut ps = vec![];
                for (kind, name) in [("invx", "invariant_except_break"), ("inv", "invariant"), ("ens", "ensures"), ("dec", "decreases")] {
                    if let Some(c) = v.get(kind) {
                        section(&mut ps, name, clauses(c, if kind == "dec" { "decreases" } else { "invariant" }, &mm));
                    }
                }
                blocks.insert(format!("loop{}.spec", k), ps);
            }
            for k in 0..nloops {
                let base = al.iter().find(|(_, j)| **j == k).map(|(i, _)| *i);
                if !base.and_then(|k| sp_.loops.get(&k)).map(|s| s.contains_key("dec")).unwrap_or(false) {
                    // default for loops over a materialised iterator
                    let (it, _) = &l.vars[k];
                    if it.starts_with("__it") {
                        let e = blocks.entry(format!("loop{}.spec", k)).or_default();
                        e.push(kw("decreases"));
                        e.push(Piece { kind: "decreases".into(), tags: "C09".into(), text: vec![format!("{}.rest().len(),", it)] });
                    }
                }
            }
            if sp_.ghost.contains_key("exit") || self.smoke && is_trait_impl {
                b = match &sig.output {
                    ReturnType::Default => parse_quote!({ #b __ghost!("exit"); }),
                    ReturnType::Type(_, t) => parse_quote!({ let __ret: #t = #b; __ghost!("exit"); __ret }),
                };
            }
            b.stmts.insert(0, parse_quote!(__ghost!("entry");));
            if self.smoke && !sp_.trusted && !demoted {
                let n = self.report.len();
                let mut add = |k: String, j: usize, what: &str| {
                    let tags = format!("{}", what);
                    blocks.entry(k).or_default().push(Piece { kind: "smoke".into(), tags, text: vec![format!("proof {{ assert(smoke({})); }}", n * 100 + j)] });
                };
                add("entry".into(), 1, "entry");
                if is_trait_impl {
                    add("exit".into(), 0, "exit");
                }
                for k in 0..nloops {
                    add(format!("loop{}.begin", k), 2 * k + 2, "loop");
                    add(format!("loop{}.after", k), 2 * k + 3, "after");
                }
            }
            body = Some(b);
        }
        for a in &sp_.attrs {
            out.raw(a);
        }
        if self.spinoff.contains(key) && block.is_some() {
            out.raw("#[verifier::spinoff_prover]");
        }
        if block.is_some() {
            if sp_.trusted || demoted {
                out.raw("#[verifier::external_body]");
            } else {
                out.raw("#[verifier::loop_isolation(false)]");
                if nloops > 0 {
                    out.raw("#[verifier::allow_complex_invariants]");
                }
                if !self.rlimit.is_empty() && !sp_.attrs.iter().any(|a| a.contains("rlimit")) {
                    out.raw(&format!("#[verifier::rlimit({})]", self.rlimit));
                }
            }
        }
        // signature
        let (id, gen, inputs) = (&sig.ident, &sig.generics, &sig.inputs);
        let wh = &gen.where_clause;
        let gp = {
            let mut g = gen.clone();
            g.where_clause = None;
            g
        };
        let ret = format_ident!("{}", if sp_.ret.is_empty() { "ret" } else { &sp_.ret });
        let output = match &sig.output {
            ReturnType::Default => quote!(),
            ReturnType::Type(_, t) => quote!(-> (#ret: #t)),
        };
        let v = if vis { quote!(pub) } else { quote!() };
        let none = Blocks::new();
        out.tokens(quote!(#v fn #id #gp (#inputs) #output #wh), &none, false);
        out.nl();
        let mut ps = vec![];
        section(&mut ps, "requires", clauses(&sp_.requires, "requires", &m));
        let mut en = clauses(&sp_.ensures, "ensures", &m);
        if self.smoke && !is_trait_impl && body.is_some() && !sp_.trusted && !demoted {
            en.push(Piece { kind: "smoke".into(), tags: "exit".into(), text: vec![format!("smoke({})", self.report.len() * 100)] });
        }
        section(&mut ps, "ensures", en);
        section(&mut ps, "decreases", clauses(&sp_.decreases, "decreases", &m));
        for p in &ps {
            out.piece(p, 1);
        }
        match body {
            None => {
                out.tokens(quote!(;), &none, true);
            }
            Some(b) => {
                out.in_fn = true;
                if sp_.trusted || demoted {
                    out.tokens(quote!({ unimplemented!() }), &none, true);
                } else {
                    let mut b = b;
                    norm::Contracted.visit_block_mut(&mut b);
                    let ts = b.to_token_stream();
                    out.tokens(ts, &blocks, true);
                }
                out.nl();
                out.in_fn = false;
            }
        }
        out.nl();
        let end = out.lines.len();
        self.report.insert(
            key.to_string(),
            json!({"start": start, "end": end, "contract": sp.is_some(), "trusted": sp_.trusted, "demoted": demoted,
                "degraded": degraded, "soft": soft, "inlined": inlined, "loops": nloops, "file": file, "has_body": block.is_some(),
                "srcline": sig.ident.span().start().line, "origin": sp_.origin, "trait_impl": is_trait_impl,
                "clauses": sp_.requires.len() + sp_.ensures.len()}),
        );
        out.func = String::new();
    }
}

fn rust_files(repo: &std::path::Path, d: &str, out: &mut Vec<String>) {
    for e in std::fs::read_dir(repo.join(d)).into_iter().flatten().flatten() {
        let n = format!("{}/{}", d, e.file_name().to_string_lossy());
        if e.path().is_dir() {
            rust_files(repo, &n, out);
        } else if n.ends_with(".rs") {
            out.push(n);
        }
    }
}

fn shape_of(s: &ItemStruct) -> Vec<Vec<String>> {
    s.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| vec![i.to_string(), f.ty.to_token_stream().to_string()])).collect()
}

struct Rename {
    fields: HashMap<String, String>,
    types: HashMap<String, String>,
}
impl Rename {
    fn ident(&self, i: &mut Ident, m: &HashMap<String, String>) {
        if let Some(n) = m.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
        }
    }
}
impl VisitMut for Rename {
    fn visit_member_mut(&mut self, m: &mut Member) {
        if let Member::Named(i) = m {
            self.ident(i, &self.fields);
        }
    }
    fn visit_field_mut(&mut self, f: &mut Field) {
        if let Some(i) = f.ident.as_mut() {
            self.ident(i, &self.fields);
        }
        visit_mut::visit_field_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        f.colon_token.get_or_insert_with(Default::default);
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        f.colon_token.get_or_insert_with(Default::default);
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
        self.ident(&mut s.ident, &self.types);
        visit_mut::visit_path_segment_mut(self, s);
    }
    fn visit_item_struct_mut(&mut self, s: &mut ItemStruct) {
        self.ident(&mut s.ident, &self.types);
        visit_mut::visit_item_struct_mut(self, s);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // macros are read later: `.field` and names of types within
        fn go(r: &Rename, t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
            let mut dot = false;
            t.into_iter()
                .map(|x| {
                    let y = match x {
                        proc_macro2::TokenTree::Group(g) => {
                            let mut h = proc_macro2::Group::new(g.delimiter(), go(r, g.stream()));
                            h.set_span(g.span());
                            proc_macro2::TokenTree::Group(h)
                        }
                        proc_macro2::TokenTree::Ident(mut i) => {
                            if dot {
                                r.ident(&mut i, &r.fields);
                            } else {
                                r.ident(&mut i, &r.types);
                            }
                            proc_macro2::TokenTree::Ident(i)
                        }
                        x => x,
                    };
                    dot = matches!(&y, proc_macro2::TokenTree::Punct(p) if p.as_char() == '.');
                    y
                })
                .collect()
        }
        m.tokens = go(self, std::mem::take(&mut m.tokens));
    }
}

/// Gives types and fields that only have another name than recorded their recorded name back.
fn renames(all: &mut Vec<(String, Item)>, baseline: &Value) {
    let old: BTreeMap<String, Vec<Vec<String>>> = match baseline.get("__structs").map(|v| serde_json::from_value(v.clone())) {
        Some(Ok(v)) => v,
        _ => return,
    };
    let structs = |all: &Vec<(String, Item)>| -> BTreeMap<String, Vec<Vec<String>>> {
        all.iter().filter_map(|(_, i)| if let Item::Struct(s) = i { Some((s.ident.to_string(), shape_of(s))) } else { None }).collect()
    };
    // structs
    let cur = structs(all);
    let mut types = HashMap::new();
    for (o, of) in old.iter().filter(|(o, of)| !cur.contains_key(*o) && !of.is_empty()) {
        let names = |v: &Vec<Vec<String>>| v.iter().map(|x| x[0].clone()).collect::<BTreeSet<_>>();
        let c: Vec<&String> = cur.iter().filter(|(n, nf)| !old.contains_key(*n) && names(nf) == names(of)).map(|x| x.0).collect();
        if c.len() == 1 {
            types.insert(c[0].clone(), o.clone());
        }
    }
    if !types.is_empty() {
        let mut r = Rename { fields: HashMap::new(), types };
        all.iter_mut().for_each(|(_, i)| r.visit_item_mut(i));
    }
    // fields
    let cur = structs(all);
    let mut fields: HashMap<String, String> = HashMap::new();
    for (n, nf) in &cur {
        if let Some(of) = old.get(n) {
            let gone: Vec<&Vec<String>> = of.iter().filter(|x| !nf.iter().any(|y| y[0] == x[0])).collect();
            let new: Vec<&Vec<String>> = nf.iter().filter(|x| !of.iter().any(|y| y[0] == x[0])).collect();
            let rank = of.len() == nf.len() && of.iter().zip(nf).all(|(x, y)| x[1] == y[1]);
            for g in &gone {
                let c: Vec<&&Vec<String>> = new.iter().filter(|x| x[1] == g[1]).collect();
                let k = gone.iter().filter(|x| x[1] == g[1]).count();
                let to = if rank {
                    Some(nf[of.iter().position(|x| x == *g).unwrap()][0].clone())
                } else if c.len() == 1 && k == 1 {
                    Some(c[0][0].clone())
                } else {
                    None
                };
                if let Some(t) = to {
                    // no other type may have a field of that name
                    let clash = cur.iter().any(|(m, mf)| m != n && mf.iter().any(|y| y[0] == t) && !old.get(m).map(|of| of.iter().any(|y| y[0] == g[0])).unwrap_or(false));
                    if !clash && fields.get(&t).map(|o| o == &g[0]).unwrap_or(true) {
                        fields.insert(t, g[0].clone());
                    }
                }
            }
        }
    }
    if !fields.is_empty() {
        let mut r = Rename { fields, types: HashMap::new() };
        all.iter_mut().for_each(|(_, i)| r.visit_item_mut(i));
    }
}

fn main() {
    // deep recursion over deep expressions
    std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap().join().unwrap()
}

fn run() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let list = |s: String| -> Vec<String> { s.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect() };
    let repo = get("--repo");
    let features: HashSet<String> = list(get("--features")).into_iter().collect();
    let files = list(get("--files"));
    let specs = list(get("--specs"));
    let outp = get("--out");
    let basep = get("--baseline");
    let record = args.iter().any(|a| a == "--record");
    let spec_src: Vec<(String, String)> = specs.iter().map(|s| (s.rsplit('/').next().unwrap().to_string(), std::fs::read_to_string(s).unwrap())).collect();
    let sp = spec::parse(&spec_src, &features);
    let baseline: Value = std::fs::read_to_string(&basep).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);

    let c = cfg::Cfg { features: features.clone() };
    let mut all: Vec<(String, Item)> = vec![];
    let had: Option<HashSet<String>> = baseline.get("__files").and_then(|a| a.as_array()).map(|a| a.iter().filter_map(|x| x.as_str().map(|x| x.to_string())).collect());
    let mut files = files;
    let mut parent: HashMap<String, String> = HashMap::new();
    let mut nf = 0;
    while nf < files.len() {
        let f = files[nf].clone();
        nf += 1;
        let f = &f;
        let p = format!("{}/{}", repo, f);
        let src = match std::fs::read_to_string(&p) {
            Ok(s) => s,
            Err(_) => {
                eprintln!("missing {}", p);
                std::process::exit(3);
            }
        };
        let ast = match syn::parse_file(&src) {
            Ok(a) => a,
            Err(e) => {
                eprintln!("{}: {}", p, e);
                std::process::exit(3);
            }
        };
        let mut v = vec![];
        let its = c.items(ast.items);
        // modules that came into being later belong to the file that declares them
        if let Some(had) = &had {
            let dir = match f.rsplit_once('/') {
                Some((d, n)) if n == "mod.rs" || n == "lib.rs" || n == "main.rs" => d.to_string(),
                _ => f.trim_end_matches(".rs").to_string(),
            };
            for i in &its {
                if let Item::Mod(m) = i {
                    if m.content.is_none() {
                        for q in [format!("{}/{}.rs", dir, m.ident), format!("{}/{}/mod.rs", dir, m.ident)] {
                            if !had.contains(&q) && !files.contains(&q) && std::path::Path::new(&format!("{}/{}", repo, q)).exists() {
                                parent.insert(q.clone(), parent.get(f).unwrap_or(f).clone());
                                files.push(q);
                            }
                        }
                    }
                }
            }
        }
        expand_full(its, &mut v);
        expand_derives(&mut v, &sp.attrs);
        let f = parent.get(f).unwrap_or(f);
        let module = sp.modules.contains_key(f);
        let bin = v.iter().find_map(|i| match i {
            Item::Type(t) if t.ident == "BinType" => Some(base_of(&t.ty)),
            _ => None,
        });
        for mut i in v {
            TypeMap { module, texts: sp.texts, bin: bin.clone().unwrap_or_default() }.visit_item_mut(&mut i);
            for e in &sp.erase {
                Erase { param: e[0].clone(), ty: e[1].clone(), tr: e[2].clone(), of: e[3].split(',').map(|x| x.to_string()).collect(), n: e[4].parse().unwrap() }.visit_item_mut(&mut i);
            }
            all.push((f.clone(), i));
        }
    }

    renames(&mut all, &baseline);
    let structs: BTreeMap<String, Vec<Vec<String>>> = all.iter().filter_map(|(_, i)| if let Item::Struct(s) = i { Some((s.ident.to_string(), shape_of(s))) } else { None }).collect();

    // items of a file that stays a module have its name in their keys
    let pre: HashMap<String, String> = files.iter().map(|f| (f.clone(), sp.modules.get(f).map(|m| format!("{}::", m)).unwrap_or_default())).collect();

    // drop what is not verified
    let mut dropped: Vec<Value> = vec![];
    let always: &[&str] = &["Debug", "Pointer", "Display"];
    let mut items: Vec<(String, Item)> = vec![];
    for (f, i) in all {
        let key = match &i {
            Item::Impl(im) => format!("impl {}{}", pre[&f], impl_key(im)),
            Item::Struct(s) => format!("struct {}{}", pre[&f], s.ident),
            Item::Trait(s) => format!("trait {}{}", pre[&f], s.ident),
            Item::Fn(s) => format!("fn {}{}", pre[&f], s.sig.ident),
            Item::Type(s) => format!("type {}{}", pre[&f], s.ident),
            Item::Enum(s) => format!("enum {}{}", pre[&f], s.ident),
            Item::Const(s) => format!("const {}{}", pre[&f], s.ident),
            _ => "other".to_string(),
        };
        let fmt = matches!(&i, Item::Impl(im) if im.trait_.as_ref().map(|t| always.contains(&t.1.segments.last().unwrap().ident.to_string().as_str())).unwrap_or(false));
        let fmt = fmt && !(sp.texts && key == "impl BuilderId as Pointer");
        let why = if fmt { Some("formatting is not verified".to_string()) } else { sp.drop.iter().find(|(k, _)| k.as_str() == key || (k.ends_with('*') && key.starts_with(&k[..k.len() - 1]))).map(|x| x.1.clone()) };
        if let Some(w) = why {
            dropped.push(json!({"item": key, "file": f, "why": w}));
            continue;
        }
        items.push((f, i));
    }

    // declarations
    let mut decls = Decls::default();
    for (_, i) in &items {
        match i {
            Item::Struct(s) => {
                let mut m = HashMap::new();
                for (n, f) in s.fields.iter().enumerate() {
                    m.insert(f.ident.as_ref().map(|i| i.to_string()).unwrap_or(n.to_string()), f.ty.clone());
                }
                decls.fields.insert(s.ident.to_string(), m);
            }
            Item::Impl(im) => {
                let t = base_of(&im.self_ty);
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        if let ReturnType::Type(_, r) = &f.sig.output {
                            decls.fns.insert((t.clone(), f.sig.ident.to_string()), (**r).clone());
                            decls.by_name.entry(f.sig.ident.to_string()).or_default().push((**r).clone());
                        }
                    }
                }
            }
            Item::Trait(tr) => {
                for x in &tr.items {
                    if let TraitItem::Fn(f) = x {
                        if let ReturnType::Type(_, r) = &f.sig.output {
                            decls.fns.insert((tr.ident.to_string(), f.sig.ident.to_string()), (**r).clone());
                            decls.by_name.entry(f.sig.ident.to_string()).or_default().push((**r).clone());
                        }
                    }
                }
            }
            _ => {}
        }
    }

    // functions without contract are inlined; contracts of vanished functions are bound to new ones of the same shape
    let mut present: HashSet<String> = HashSet::new();
    let mut shapes: HashMap<String, String> = HashMap::new();
    for (f, i) in &items {
        if let Item::Impl(im) = i {
            let k = format!("{}{}", pre[f], impl_key(im));
            for x in &im.items {
                if let ImplItem::Fn(fx) = x {
                    let key = format!("{}::{}", k, fx.sig.ident);
                    shapes.insert(key.clone(), sig_shape(&fx.sig));
                    present.insert(key);
                }
            }
        } else if let Item::Fn(fx) = i {
            present.insert(format!("{}{}", pre[f], fx.sig.ident));
            shapes.insert(format!("{}{}", pre[f], fx.sig.ident), sig_shape(&fx.sig));
        } else if let Item::Trait(t) = i {
            for x in &t.items {
                if let TraitItem::Fn(fx) = x {
                    present.insert(format!("{}{}::{}", pre[f], t.ident, fx.sig.ident));
                }
            }
        }
    }
    let mut bound: HashMap<String, String> = HashMap::new();
    let mut lost: Vec<String> = vec![];
    for k in sp.fns.keys() {
        if present.contains(k) {
            continue;
        }
        let sh = baseline.get("__shapes").and_then(|s| s.get(k)).and_then(|s| s.as_str()).unwrap_or("?").to_string();
        let pre = k.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
        let cand: Vec<&String> = shapes
            .iter()
            .filter(|(n, s)| !sp.fns.contains_key(*n) && **s == sh && n.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default() == pre)
            .map(|(n, _)| n)
            .collect();
        if cand.len() == 1 {
            bound.insert(cand[0].clone(), k.clone());
        } else {
            lost.push(k.clone());
        }
    }
    struct Muts(HashSet<String>);
    impl<'a> syn::visit::Visit<'a> for Muts {
        fn visit_signature(&mut self, s: &'a Signature) {
            let m = s.inputs.iter().any(|a| match a {
                FnArg::Receiver(r) => r.mutability.is_some() && r.reference.is_some(),
                FnArg::Typed(t) => matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()),
            });
            if m {
                self.0.insert(s.ident.to_string());
            }
        }
    }
    let mut muts = Muts(HashSet::new());
    for (_, i) in &items {
        syn::visit::Visit::visit_item(&mut muts, i);
    }
    norm::MUTATORS.with(|m| *m.borrow_mut() = muts.0);
    let mut droppers = HashSet::new();
    for (_, i) in &items {
        if let Item::Impl(im) = i {
            if im.trait_.as_ref().map(|t| t.1.is_ident("Drop")).unwrap_or(false) {
                let t = base_of(&im.self_ty);
                if !sp.fns.contains_key(&format!("{} as Drop::drop", t)) {
                    droppers.insert(t);
                }
            }
        }
    }
    let mut helpers = HashMap::new();
    for (_, i) in &items {
        match i {
            Item::Impl(im) if im.trait_.is_none() => {
                let t = base_of(&im.self_ty);
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        let key = format!("{}::{}", t, f.sig.ident);
                        if !sp.fns.contains_key(&key) && !bound.contains_key(&key) {
                            helpers.insert((t.clone(), f.sig.ident.to_string()), norm::Helper { sig: f.sig.clone(), block: f.block.clone() });
                        }
                    }
                }
            }
            Item::Fn(f) => {
                let key = f.sig.ident.to_string();
                if !sp.fns.contains_key(&key) && !bound.contains_key(&key) {
                    helpers.insert((String::new(), key), norm::Helper { sig: f.sig.clone(), block: (*f.block).clone() });
                }
            }
            _ => {}
        }
    }

    let mut cx = Ctx {
        sp,
        decls,
        helpers,
        droppers,
        demote: list(get("--demote")).into_iter().collect(),
        noghost: list(get("--noghost")).into_iter().collect(),
        smoke: args.iter().any(|a| a == "--smoke"),
        spinoff: list(get("--spinoff")).into_iter().collect(),
        contracts: HashSet::new(),
        flip: list(get("--flip")).into_iter().collect(),
        baseline,
        record: Default::default(),
        report: BTreeMap::new(),
        bound,
        rlimit: get("--rlimit"),
    };
    let mut out = Out::new();
    out.raw("// GENERATED by /verif/extract from the sources of daab. Do not edit.");
    out.raw("#![feature(allocator_api)]");
    out.raw("#![allow(unused, non_snake_case, dead_code, unreachable_code, private_interfaces)]");
    out.raw("use vstd::prelude::*;\nuse std::collections::{HashMap, HashSet};\nuse std::marker::PhantomData;");
    let raws = std::mem::take(&mut cx.sp.raw);
    if !raws.iter().any(|(_, r)| r.contains("pub struct Rc<")) {
        out.raw("use std::rc::Rc;\nuse std::sync::Arc;");
    }
    out.raw("verus! {");
    if args.iter().any(|a| a == "--smoke") {
        out.raw("pub uninterp spec fn smoke(k: int) -> bool;");
    }
    for (f, r) in &raws {
        out.raw(&format!("// ---- {}", f));
        let a = out.lines.len() + 1;
        out.raw(r);
        let b = out.lines.len();
        out.map.push(json!({"line": a, "end": b, "kind": "raw", "fn": format!("({})", f), "tags": ""}));
    }
    let none = Blocks::new();
    let mut module = String::new();
    for (f, i) in &items {
        let p = pre[f].clone();
        if p != module {
            if !module.is_empty() {
                out.nl();
                out.raw("}");
            }
            if !p.is_empty() {
                out.nl();
                out.raw(&format!("pub mod {} {{ use super::*; use crate as root;", p.trim_end_matches(':')));
            }
            module = p.clone();
        }
        match i {
            Item::Struct(s) => {
                let mut s = s.clone();
                s.vis = parse_quote!(pub);
                for fl in s.fields.iter_mut() {
                    fl.vis = parse_quote!(pub);
                    fl.attrs.clear();
                }
                // derives: only those of the identity type matter
                let der: Vec<Attribute> = std::mem::take(&mut s.attrs);
                let keep: Vec<&str> = ["Clone", "Copy", "PartialEq", "Eq"].to_vec();
                let key = format!("struct {}{}", p, s.ident);
                out.nl();
                let at = cx.sp.attrs.get(&key).cloned().unwrap_or_default();
                for a in &at {
                    if !matches!(a.trim(), "#noderive" | "#expand") {
                        out.raw(a);
                    }
                }
                if !at.iter().any(|a| matches!(a.trim(), "#noderive" | "#expand")) {
                    for d in der {
                        let ds: Vec<String> = d.parse_args_with(punctuated::Punctuated::<Path, Token![,]>::parse_terminated).map(|p| p.iter().map(|x| x.segments.last().unwrap().ident.to_string()).collect()).unwrap_or_default();
                        let k: Vec<String> = ds.into_iter().filter(|x| keep.contains(&x.as_str()) || (x == "Hash" && s.ident == "BuilderId")).collect();
                        if !k.is_empty() {
                            out.raw(&format!("#[derive({})]", k.join(", ")));
                        }
                    }
                }
                out.tokens(s.to_token_stream(), &none, true);
                out.nl();
            }
            Item::Type(t) => {
                let mut t = t.clone();
                t.vis = parse_quote!(pub);
                out.tokens(t.to_token_stream(), &none, true);
                out.nl();
            }
            Item::Trait(t) => {
                out.nl();
                let (id, g, st) = (&t.ident, &t.generics, &t.supertraits);
                let w = &g.where_clause;
                let mut gp = g.clone();
                gp.where_clause = None;
                let col = if st.is_empty() { quote!() } else { quote!(: #st) };
                let at = cx.sp.attrs.get(&format!("trait {}{}", p, id)).cloned().unwrap_or_default();
                for a in &at {
                    out.raw(a);
                }
                out.tokens(quote!(pub trait #id #gp #col #w), &none, false);
                out.raw("{");
                let key = format!("trait {}{}", p, id);
                for c in clauses(&cx.sp.extra.get(&key).cloned().unwrap_or_default(), "extra", &HashMap::new()) {
                    out.piece(&c, 1);
                }
                for x in &t.items {
                    match x {
                        TraitItem::Fn(fx) => {
                            let k = format!("{}{}::{}", p, id, fx.sig.ident);
                            if cx.sp.drop.contains_key(&format!("fn {}", k)) {
                                dropped.push(json!({"item": format!("fn {}", k), "file": f, "why": cx.sp.drop[&format!("fn {}", k)]}));
                                continue;
                            }
                            cx.function(&mut out, &k, &fx.sig, fx.default.as_ref(), &id.to_string(), false, f, false);
                        }
                        x => {
                            out.tokens(x.to_token_stream(), &none, true);
                            out.nl();
                        }
                    }
                }
                out.raw("}");
            }
            Item::Impl(im) => {
                out.nl();
                let key = format!("{}{}", p, impl_key(im));
                let ty = base_of(&im.self_ty);
                let mut g = im.generics.clone();
                let w = g.where_clause.take();
                let st = &im.self_ty;
                // Verus takes every type for sized, so these would overlap with the impl for sized builders: they get a trait of their own
                let plain = key.contains("<dyn> as From<");
                // a destructor becomes a function of its own
                let drop = im.trait_.as_ref().map(|t| t.1.is_ident("Drop")).unwrap_or(false);
                let tr = im.trait_.as_ref().filter(|_| !drop).map(|(_, p, _)| {
                    let a = &p.segments.last().unwrap().arguments;
                    if plain { quote!(VFromDyn #a for) } else { quote!(#p for) }
                });
                // only helpers in there?
                let fns: Vec<&ImplItem> = im.items.iter().filter(|x| match x {
                    ImplItem::Fn(fx) => im.trait_.is_some() || !cx.helpers.contains_key(&(ty.clone(), fx.sig.ident.to_string())),
                    _ => true,
                }).collect();
                if fns.is_empty() && im.trait_.is_none() {
                    continue;
                }
                out.tokens(quote!(impl #g #tr #st #w), &none, false);
                out.raw("{");
                for c in clauses(&cx.sp.extra.get(&format!("impl {}", key)).cloned().unwrap_or_default(), "extra", &HashMap::new()) {
                    out.piece(&c, 1);
                }
                for x in &im.items {
                    match x {
                        ImplItem::Fn(fx) => {
                            let k = format!("{}::{}", key, fx.sig.ident);
                            if cx.sp.drop.contains_key(&format!("fn {}", k)) {
                                dropped.push(json!({"item": format!("fn {}", k), "file": f, "why": cx.sp.drop[&format!("fn {}", k)]}));
                                continue;
                            }
                            if im.trait_.is_none() && cx.helpers.contains_key(&(ty.clone(), fx.sig.ident.to_string())) {
                                dropped.push(json!({"item": k, "file": f, "why": "no contract: inlined into its callers"}));
                                continue;
                            }
                            let mut sig = fx.sig.clone();
                            if im.trait_.is_some() {
                                SelfAssoc(&im.items).visit_signature_mut(&mut sig);
                            }
                            if plain || drop {
                                sig.ident = format_ident!("v_{}", sig.ident);
                            }
                            cx.function(&mut out, &k, &sig, Some(&fx.block), &ty, im.trait_.is_none() || drop, f, im.trait_.is_some());
                        }
                        x => {
                            out.tokens(x.to_token_stream(), &none, true);
                            out.nl();
                        }
                    }
                }
                out.raw("}");
            }
            Item::Fn(fx) => {
                let k = fx.sig.ident.to_string();
                if cx.helpers.contains_key(&(String::new(), k.clone())) {
                    dropped.push(json!({"item": k, "file": f, "why": "no contract: inlined into its callers"}));
                    continue;
                }
                cx.function(&mut out, &k, &fx.sig, Some(&fx.block), "", true, f, false);
            }
            x => {
                out.tokens(x.to_token_stream(), &none, true);
                out.nl();
            }
        }
    }
    out.nl();
    if !module.is_empty() {
        out.raw("}");
    }
    out.raw("} // verus!");
    out.raw("fn main() {}");
    std::fs::write(&outp, out.lines.join("\n") + "\n").unwrap();
    let rep = json!({"map": out.map, "fns": cx.report, "dropped": dropped, "lost": lost,
        "bound": cx.bound, "features": features.iter().collect::<Vec<_>>()});
    std::fs::write(format!("{}.json", outp), serde_json::to_string(&rep).unwrap()).unwrap();
    if record {
        let mut r = cx.record;
        let mut fs = vec![];
        rust_files(std::path::Path::new(&repo), "src", &mut fs);
        fs.sort();
        r.insert("__files".into(), json!(fs));
        r.insert("__structs".into(), json!(structs));
        r.insert("__shapes".into(), json!(shapes.into_iter().collect::<BTreeMap<_, _>>()));
        std::fs::write(&basep, serde_json::to_string_pretty(&Value::Object(r)).unwrap()).unwrap();
    }
}
