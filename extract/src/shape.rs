//! One shape for what can be written in several ways: loops and early returns. Every rewrite keeps the meaning.
use quote::ToTokens;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn ident_of(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => Some(p.path.segments[0].ident.to_string()),
        Expr::Paren(p) => ident_of(&p.expr),
        _ => None,
    }
}

/// how often is the name used?
fn uses<T: ToTokens>(t: &T, name: &str) -> usize {
    fn go(ts: proc_macro2::TokenStream, n: &str) -> usize {
        ts.into_iter()
            .map(|t| match t {
                proc_macro2::TokenTree::Ident(i) => (i == n) as usize,
                proc_macro2::TokenTree::Group(g) => go(g.stream(), n),
                _ => 0,
            })
            .sum()
    }
    go(t.to_token_stream(), name)
}

struct Jumps {
    brk: usize,
    cont: usize,
    ret: usize,
    tries: usize,
    loops: usize,
}
impl<'a> Visit<'a> for Jumps {
    fn visit_expr_break(&mut self, b: &'a ExprBreak) {
        self.brk += 1;
        visit::visit_expr_break(self, b);
    }
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.cont += 1;
    }
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.ret += 1;
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, r: &'a ExprTry) {
        self.tries += 1;
        visit::visit_expr_try(self, r);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_while(&mut self, l: &'a ExprWhile) {
        self.loops += 1;
        self.inner(|s| visit::visit_expr_while(s, l));
    }
    fn visit_expr_loop(&mut self, l: &'a ExprLoop) {
        self.loops += 1;
        self.inner(|s| visit::visit_expr_loop(s, l));
    }
    fn visit_expr_for_loop(&mut self, l: &'a ExprForLoop) {
        self.loops += 1;
        self.inner(|s| visit::visit_expr_for_loop(s, l));
    }
}
impl Jumps {
    fn inner(&mut self, f: impl FnOnce(&mut Self)) {
        // breaks and continues of inner loops do not count (labels are not used in the code)
        let (b, c) = (self.brk, self.cont);
        f(self);
        self.brk = b;
        self.cont = c;
    }
    fn of_stmts(s: &[Stmt]) -> Jumps {
        let mut j = Jumps { brk: 0, cont: 0, ret: 0, tries: 0, loops: 0 };
        for x in s {
            j.visit_stmt(x);
        }
        j
    }
    fn of(e: &Expr) -> Jumps {
        let mut j = Jumps { brk: 0, cont: 0, ret: 0, tries: 0, loops: 0 };
        j.visit_expr(e);
        j
    }
    fn escapes(&self) -> bool {
        self.ret + self.tries > 0
    }
}

fn only(e: &Expr) -> &Expr {
    match e {
        Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, _) => only(e),
            _ => e,
        },
        Expr::Paren(p) => only(&p.expr),
        _ => e,
    }
}
fn is_break(e: &Expr) -> bool {
    matches!(only(e), Expr::Break(b) if b.label.is_none() && b.expr.is_none())
}
fn block_is_break(b: &Block) -> bool {
    b.stmts.len() == 1 && matches!(&b.stmts[0], Stmt::Expr(e, _) if is_break(e))
}
fn is_none_pat(p: &Pat) -> bool {
    matches!(p, Pat::Wild(_)) || toks(p) == "None"
}

fn negate(e: &Expr) -> Expr {
    match e {
        Expr::Paren(p) => negate(&p.expr),
        Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => (**expr).clone(),
        e => parse_quote!(!(#e)),
    }
}

/// Loops.
pub struct LoopShapes;
impl LoopShapes {
    fn lp(&mut self, body: &Block) -> Option<Expr> {
        let st = &body.stmts;
        let first = st.first()?;
        let rest: Vec<Stmt> = st[1..].to_vec();
        match first {
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let pat = match &l.pat {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                // let Some(x) = e else { break };
                if let Some((_, d)) = &init.diverge {
                    if is_break(d) {
                        let e = &init.expr;
                        return Some(parse_quote!(while let #pat = #e { #(#rest)* }));
                    }
                    return None;
                }
                // let x = match e { Some(p) => p, None => break };
                if let Expr::Match(m) = only(&init.expr) {
                    if m.arms.len() == 2 {
                        let i = m.arms.iter().position(|a| is_none_pat(&a.pat) && is_break(&a.body))?;
                        let o = &m.arms[1 - i];
                        if i == 0 && matches!(m.arms[0].pat, Pat::Wild(_)) || o.guard.is_some() {
                            return None;
                        }
                        let (p, v, e) = (&o.pat, &o.body, &m.expr);
                        if let Pat::TupleStruct(t) = p {
                            if t.elems.len() == 1 && toks(&t.elems[0]) == toks(v) && matches!(pat, Pat::Ident(_)) {
                                let f = &t.path;
                                return Some(parse_quote!(while let #f(#pat) = #e { #(#rest)* }));
                            }
                        }
                        return Some(parse_quote!(while let #p = #e { let #pat = #v; #(#rest)* }));
                    }
                }
                // let f = e; if !f { break; }
                if let Pat::Ident(i) = &pat {
                    if let Some(Stmt::Expr(Expr::If(f), _)) = rest.first() {
                        let n = i.ident.to_string();
                        let e = &init.expr;
                        let more = &rest[1..];
                        if block_is_break(&f.then_branch) && f.else_branch.is_none() && !more.iter().any(|s| uses(s, &n) > 0) {
                            if ident_of(&negate(&f.cond)).as_deref() == Some(n.as_str()) {
                                return Some(parse_quote!(while #e { #(#more)* }));
                            }
                            if ident_of(&f.cond).as_deref() == Some(n.as_str()) {
                                let ne = negate(e);
                                return Some(parse_quote!(while #ne { #(#more)* }));
                            }
                        }
                    }
                }
                None
            }
            Stmt::Expr(Expr::If(f), _) => {
                // if let Some(x) = e { body } else { break }
                if let Some((_, el)) = &f.else_branch {
                    if rest.is_empty() && is_break(el) {
                        let (c, b) = (&f.cond, &f.then_branch.stmts);
                        return Some(parse_quote!(while #c { #(#b)* }));
                    }
                    if rest.is_empty() && block_is_break(&f.then_branch) && !matches!(*f.cond, Expr::Let(_)) {
                        let c = negate(&f.cond);
                        return Some(parse_quote!(while #c { #el }));
                    }
                    return None;
                }
                if block_is_break(&f.then_branch) && !matches!(*f.cond, Expr::Let(_)) {
                    let c = negate(&f.cond);
                    return Some(parse_quote!(while #c { #(#rest)* }));
                }
                // if c { body; continue?? } break
                if rest.len() == 1 && matches!(&rest[0], Stmt::Expr(e, _) if is_break(e)) {
                    if let Some(Stmt::Expr(Expr::Continue(_), _)) = f.then_branch.stmts.last() {
                        let (c, b) = (&f.cond, &f.then_branch.stmts[..f.then_branch.stmts.len() - 1]);
                        return Some(parse_quote!(while #c { #(#b)* }));
                    }
                }
                None
            }
            Stmt::Expr(Expr::Match(m), _) if rest.is_empty() && m.arms.len() == 2 => {
                let i = m.arms.iter().position(|a| (is_none_pat(&a.pat) || toks(&a.pat) == "false") && is_break(&a.body))?;
                let o = &m.arms[1 - i];
                if i == 0 && matches!(m.arms[0].pat, Pat::Wild(_)) || o.guard.is_some() {
                    return None;
                }
                let (p, v, e) = (&o.pat, &o.body, &m.expr);
                if toks(p) == "true" || toks(&m.arms[i].pat) == "false" {
                    return Some(parse_quote!(while #e { #v }));
                }
                Some(parse_quote!(while let #p = #e { #v }))
            }
            _ => None,
        }
    }

    /// while !v.is_empty() { let x = v.pop().unwrap(); ... }
    fn wl(&mut self, w: &ExprWhile) -> Option<Expr> {
        let c = negate(&w.cond);
        if let Expr::MethodCall(m) = &c {
            if m.method == "is_empty" && matches!(&*w.cond, Expr::Unary(_)) {
                if let Some(Stmt::Local(l)) = w.body.stmts.first() {
                    let init = l.init.as_ref()?;
                    if let Expr::MethodCall(u) = &*init.expr {
                        if u.method == "unwrap" || u.method == "expect" {
                            if let Expr::MethodCall(p) = &*u.receiver {
                                if (p.method == "pop" || p.method == "pop_front" || p.method == "pop_back") && toks(&p.receiver) == toks(&m.receiver) {
                                    let (pat, e, rest) = (&l.pat, &u.receiver, &w.body.stmts[1..]);
                                    let pat = if let Pat::Type(t) = pat { &*t.pat } else { pat };
                                    return Some(parse_quote!(while let Some(#pat) = #e { #(#rest)* }));
                                }
                            }
                        }
                    }
                }
            }
        }
        None
    }

    /// A loop body without `continue` at its own level where that is possible.
    fn no_continue(stmts: Vec<Stmt>) -> Vec<Stmt> {
        if Jumps::of_stmts(&stmts).cont == 0 {
            return stmts;
        }
        let mut out: Vec<Stmt> = vec![];
        let mut it = stmts.into_iter();
        while let Some(s) = it.next() {
            match &s {
                Stmt::Expr(Expr::Continue(_), _) => return out,
                Stmt::Expr(Expr::If(f), _) if Jumps::of_stmts(std::slice::from_ref(&s)).cont > 0 => {
                    let then_ends = matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Continue(_), _)));
                    let rest: Vec<Stmt> = it.collect();
                    if then_ends && f.else_branch.is_none() {
                        let b = Self::no_continue(f.then_branch.stmts.clone());
                        let rest = Self::no_continue(rest);
                        let c = &f.cond;
                        if rest.is_empty() {
                            out.push(parse_quote!(if #c { #(#b)* }));
                        } else if b.is_empty() && !matches!(**c, Expr::Let(_)) {
                            let n = negate(c);
                            out.push(parse_quote!(if #n { #(#rest)* }));
                        } else {
                            out.push(parse_quote!(if #c { #(#b)* } else { #(#rest)* }));
                        }
                        return out;
                    }
                    out.push(s);
                    out.extend(rest);
                    return out;
                }
                Stmt::Local(l) => {
                    // let Some(x) = e else { continue };
                    if let Some(LocalInit { expr, diverge: Some((_, d)), .. }) = &l.init {
                        if matches!(only(d), Expr::Continue(_)) {
                            let p = &l.pat;
                            let rest = Self::no_continue(it.collect());
                            out.push(parse_quote!(if let #p = #expr { #(#rest)* }));
                            return out;
                        }
                    }
                    if let Some(LocalInit { expr, diverge: None, .. }) = &l.init {
                        if let Expr::Match(m) = only(expr) {
                            // let x = match e { P => v, Q => continue };
                            if m.arms.len() == 2 {
                                if let Some(i) = m.arms.iter().position(|a| matches!(only(&a.body), Expr::Continue(_))) {
                                    let rest = Self::no_continue(it.collect());
                                    let (x, a, b) = (&l.pat, &m.arms[1 - i], &m.arms[i]);
                                    let (e, p, v, q) = (&m.expr, &a.pat, &a.body, &b.pat);
                                    if a.guard.is_none() && b.guard.is_none() {
                                        if i == 0 {
                                            out.push(parse_quote!(match #e { #q => {}, #p => { let #x = #v; #(#rest)* } }));
                                        } else {
                                            out.push(parse_quote!(match #e { #p => { let #x = #v; #(#rest)* }, #q => {} }));
                                        }
                                        return out;
                                    }
                                    out.push(s);
                                    out.extend(rest);
                                    return out;
                                }
                            }
                        }
                    }
                    out.push(s);
                }
                _ => out.push(s),
            }
        }
        out
    }

    /// Loops governed by a flag: `let mut f = true; while f { body; f = e; }`
    fn flags(b: &mut Block) {
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            let mut done = false;
            if let Stmt::Local(l) = &b.stmts[i] {
                let pat = if let Pat::Type(t) = &l.pat { &*t.pat } else { &l.pat };
                if let (Pat::Ident(p), Some(init)) = (pat, &l.init) {
                    let n = p.ident.to_string();
                    if let Some(j) = (i + 1..b.stmts.len()).find(|j| uses(&b.stmts[*j], &n) > 0) {
                        let after: usize = b.stmts[j + 1..].iter().map(|s| uses(s, &n)).sum();
                        if let Stmt::Expr(Expr::While(w), semi) = &b.stmts[j] {
                            if after == 0 && ident_of(&w.cond).as_deref() == Some(n.as_str()) {
                                if let Some(Stmt::Expr(Expr::Assign(a), _)) = w.body.stmts.last() {
                                    let body = &w.body.stmts[..w.body.stmts.len() - 1];
                                    let inner = Jumps::of_stmts(body);
                                    if ident_of(&a.left).as_deref() == Some(n.as_str()) && !body.iter().any(|s| uses(s, &n) > 0) && uses(&a.right, &n) == 0 && inner.cont == 0 {
                                        let e = &a.right;
                                        let istrue = toks(&init.expr) == "true";
                                        let same = toks(&init.expr) == toks(e) && body.is_empty() && j == i + 1;
                                        let new: Option<Expr> = if (istrue || same) && body.is_empty() {
                                            Some(parse_quote!(while #e {}))
                                        } else if istrue {
                                            let ne = negate(e);
                                            Some(parse_quote!(loop { #(#body)* if #ne { break; } }))
                                        } else {
                                            None
                                        };
                                        if let Some(x) = new {
                                            let s = semi.clone();
                                            b.stmts[j] = Stmt::Expr(x, s);
                                            b.stmts.remove(i);
                                            done = true;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if !done {
                i += 1;
            }
        }
    }
}
/// `vec![a, b]`, `HashSet::from([a, b])`: what is put in, and how
fn literal_items(e: &Expr) -> Option<(Ident, Ident, Vec<Expr>)> {
    let id = |s: &str| Ident::new(s, proc_macro2::Span::call_site());
    match e {
        Expr::Macro(m) if m.mac.path.is_ident("vec") && !m.mac.tokens.is_empty() => {
            let p = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
            Some((id("Vec"), id("push"), p.into_iter().collect()))
        }
        Expr::Call(c) if c.args.len() == 1 => {
            let (t, f) = match toks(&c.func).as_str() {
                "Vec::from" | "Vec::<_>::from" => ("Vec", "push"),
                "HashSet::from" | "HashSet::<_>::from" => ("HashSet", "insert"),
                _ => return None,
            };
            match &c.args[0] {
                Expr::Array(a) => Some((id(t), id(f), a.elems.iter().cloned().collect())),
                _ => None,
            }
        }
        _ => None,
    }
}
impl LoopShapes {
    /// Collections written out become a sequence of insertions.
    fn literals(b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                let (pat, asc) = match &l.pat {
                    Pat::Type(t) => (&*t.pat, Some((*t.ty).clone())),
                    p => (p, None),
                };
                if let (Pat::Ident(p), Some(LocalInit { expr, diverge: None, .. })) = (pat, &l.init) {
                    if let Some((t, f, items)) = literal_items(expr) {
                        let n = &p.ident;
                        if p.mutability.is_some() && p.by_ref.is_none() && !items.iter().any(|i| uses(i, &n.to_string()) > 0 || Jumps::of(i).escapes()) {
                            out.push(match asc {
                                Some(a) => parse_quote!(let mut #n: #a = #t::new();),
                                None => parse_quote!(let mut #n = #t::new();),
                            });
                            for i in items {
                                out.push(parse_quote!(#n.#f(#i);));
                            }
                            continue;
                        }
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
}
impl VisitMut for LoopShapes {
    fn visit_block_mut(&mut self, b: &mut Block) {
        Self::literals(b);
        Self::flags(b);
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some((t, f, items)) = literal_items(e) {
            *e = parse_quote!({ let mut __lit = #t::new(); #(__lit.#f(#items);)* __lit });
        }
        for _ in 0..4 {
            let n = match e {
                Expr::Loop(l) if l.label.is_none() => {
                    let inner = Jumps::of_stmts(&l.body.stmts);
                    let _ = inner;
                    self.lp(&l.body)
                }
                Expr::While(w) if w.label.is_none() => self.wl(w),
                _ => None,
            };
            match n {
                Some(x) => *e = x,
                None => break,
            }
        }
        match e {
            Expr::Loop(l) => l.body.stmts = Self::no_continue(std::mem::take(&mut l.body.stmts)),
            Expr::While(l) => l.body.stmts = Self::no_continue(std::mem::take(&mut l.body.stmts)),
            Expr::ForLoop(l) => l.body.stmts = Self::no_continue(std::mem::take(&mut l.body.stmts)),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

// ---------------------------------------------------------------- early returns
/// Rewrites a function body so that no `return` and no `?` is left; None if that is out of reach.
/// `opt`: the function returns an Option.
pub fn unescape(b: &Block, opt: bool) -> Option<Block> {
    if !Jumps::of_stmts(&b.stmts).escapes() {
        return Some(b.clone());
    }
    let mut n = 0;
    let st = un(b.stmts.clone(), opt, &mut n)?;
    let r: Block = parse_quote!({ #(#st)* });
    if Jumps::of_stmts(&r.stmts).escapes() {
        return None;
    }
    Some(r)
}

pub fn escapes(b: &Block) -> bool {
    Jumps::of_stmts(&b.stmts).escapes()
}

fn diverges(b: &[Stmt]) -> bool {
    match b.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(f), _)) => {
            diverges(&f.then_branch.stmts)
                && match &f.else_branch {
                    Some((_, e)) => matches!(&**e, Expr::Block(x) if diverges(&x.block.stmts)),
                    None => false,
                }
        }
        Some(Stmt::Expr(Expr::Block(x), _)) => diverges(&x.block.stmts),
        _ => false,
    }
}

fn as_stmts(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}

/// Takes out the `?` that is evaluated first, provided only plain names are evaluated before it.
fn hoist(e: &mut Expr, n: &mut usize) -> Option<(Ident, Expr)> {
    fn plain(e: &Expr) -> bool {
        match e {
            Expr::Path(_) | Expr::Lit(_) => true,
            Expr::Reference(r) => plain(&r.expr),
            Expr::Field(f) => plain(&f.base),
            Expr::Paren(p) => plain(&p.expr),
            _ => false,
        }
    }
    match e {
        Expr::Try(t) => {
            if Jumps::of(&t.expr).tries > 0 {
                return hoist(&mut t.expr, n);
            }
            let id = quote::format_ident!("__q{}", *n);
            *n += 1;
            let x = (*t.expr).clone();
            *e = parse_quote!(#id);
            Some((id, x))
        }
        Expr::Paren(p) => hoist(&mut p.expr, n),
        Expr::Reference(p) => hoist(&mut p.expr, n),
        Expr::Unary(p) => hoist(&mut p.expr, n),
        Expr::Field(p) => hoist(&mut p.base, n),
        Expr::Cast(p) => hoist(&mut p.expr, n),
        Expr::MethodCall(m) => {
            if Jumps::of(&m.receiver).tries > 0 {
                return hoist(&mut m.receiver, n);
            }
            if !plain(&m.receiver) {
                return None;
            }
            for a in m.args.iter_mut() {
                if Jumps::of(a).tries > 0 {
                    return hoist(a, n);
                }
                if !plain(a) {
                    return None;
                }
            }
            None
        }
        Expr::Call(c) => {
            for a in c.args.iter_mut() {
                if Jumps::of(a).tries > 0 {
                    return hoist(a, n);
                }
                if !plain(a) {
                    return None;
                }
            }
            None
        }
        Expr::Struct(s) => {
            for f in s.fields.iter_mut() {
                if Jumps::of(&f.expr).tries > 0 {
                    return hoist(&mut f.expr, n);
                }
                if !plain(&f.expr) {
                    return None;
                }
            }
            None
        }
        Expr::Tuple(s) => {
            for f in s.elems.iter_mut() {
                if Jumps::of(f).tries > 0 {
                    return hoist(f, n);
                }
                if !plain(f) {
                    return None;
                }
            }
            None
        }
        Expr::Match(m) if Jumps::of(&m.expr).tries > 0 => hoist(&mut m.expr, n),
        Expr::If(f) => match &mut *f.cond {
            Expr::Let(l) if Jumps::of(&l.expr).tries > 0 => hoist(&mut l.expr, n),
            c if Jumps::of(c).tries > 0 => hoist(c, n),
            _ => None,
        },
        _ => None,
    }
}

fn un(stmts: Vec<Stmt>, opt: bool, n: &mut usize) -> Option<Vec<Stmt>> {
    let mut out: Vec<Stmt> = vec![];
    for i in 0..stmts.len() {
        let s = &stmts[i];
        let rest = &stmts[i + 1..];
        if !Jumps::of_stmts(std::slice::from_ref(s)).escapes() {
            out.push(s.clone());
            continue;
        }
        let try_ = |id: &Ident, x: &Expr, tail: Vec<Stmt>| -> Stmt {
            let e: Expr = if opt {
                parse_quote!(match #x { Some(#id) => { #(#tail)* } None => None })
            } else {
                parse_quote!(match #x { Ok(#id) => { #(#tail)* } Err(__e) => Err(__e) })
            };
            Stmt::Expr(e, None)
        };
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                match &r.expr {
                    Some(e) => {
                        let mut e = (**e).clone();
                        if Jumps::of(&e).tries > 0 {
                            let (id, x) = hoist(&mut e, n)?;
                            let tail = un(vec![Stmt::Expr(e, None)], opt, n)?;
                            out.push(try_(&id, &x, tail));
                        } else {
                            out.push(Stmt::Expr(e, None));
                        }
                    }
                    None => {}
                }
                return Some(out);
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let pat = &l.pat;
                let mut e = (*init.expr).clone();
                if let Some((_, d)) = &init.diverge {
                    if Jumps::of(&e).tries > 0 {
                        return None;
                    }
                    let a = un(rest.to_vec(), opt, n)?;
                    let b = un(as_stmts(d), opt, n)?;
                    let p = if let Pat::Type(t) = pat { &*t.pat } else { pat };
                    out.push(Stmt::Expr(parse_quote!(if let #p = #e { #(#a)* } else { #(#b)* }), None));
                    return Some(out);
                }
                if let Some((id, x)) = if matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) && Jumps::of(&e).ret > 0 { None } else { hoist(&mut e, n) } {
                    let mut l2 = l.clone();
                    l2.init.as_mut().unwrap().expr = Box::new(e);
                    let mut v = vec![Stmt::Local(l2)];
                    v.extend(rest.iter().cloned());
                    let tail = un(v, opt, n)?;
                    out.push(try_(&id, &x, tail));
                    return Some(out);
                }
                match &e {
                    Expr::Match(m) => {
                        if Jumps::of(&m.expr).escapes() {
                            return None;
                        }
                        let plainarms = m.arms.iter().filter(|a| !diverges(&as_stmts(&a.body))).count();
                        if plainarms > 1 && Jumps::of_stmts(rest).loops > 0 {
                            return None;
                        }
                        let mut m2 = m.clone();
                        for a in m2.arms.iter_mut() {
                            let b = as_stmts(&a.body);
                            let v = if diverges(&b) {
                                un(b, opt, n)?
                            } else {
                                let x = &a.body;
                                let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #x;)];
                                v.extend(rest.iter().cloned());
                                un(v, opt, n)?
                            };
                            *a.body = parse_quote!({ #(#v)* });
                            a.comma = None;
                        }
                        out.push(Stmt::Expr(Expr::Match(m2), None));
                        return Some(out);
                    }
                    Expr::If(f) => {
                        let el = f.else_branch.as_ref()?;
                        let (tb, eb) = (f.then_branch.stmts.clone(), as_stmts(&el.1));
                        let (td, ed) = (diverges(&tb), diverges(&eb));
                        if Jumps::of(&f.cond).escapes() || (!td && !ed && Jumps::of_stmts(rest).loops > 0) {
                            return None;
                        }
                        let mk = |b: Vec<Stmt>, d: bool, n: &mut usize| -> Option<Vec<Stmt>> {
                            if d {
                                un(b, opt, n)
                            } else {
                                let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = { #(#b)* };)];
                                v.extend(rest.iter().cloned());
                                un(v, opt, n)
                            }
                        };
                        let (a, b) = (mk(tb, td, n)?, mk(eb, ed, n)?);
                        let c = &f.cond;
                        out.push(Stmt::Expr(parse_quote!(if #c { #(#a)* } else { #(#b)* }), None));
                        return Some(out);
                    }
                    Expr::Block(b) if b.label.is_none() => {
                        // let p = { a; b; e };
                        let mut v = b.block.stmts.clone();
                        match v.pop() {
                            Some(Stmt::Expr(t, None)) => {
                                v.push(parse_quote!(let #pat = #t;));
                                v.extend(rest.iter().cloned());
                                let x = un(v, opt, n)?;
                                out.extend(x);
                                return Some(out);
                            }
                            _ => return None,
                        }
                    }
                    _ => return None,
                }
            }
            Stmt::Expr(e, semi) => {
                let mut e = e.clone();
                let last = rest.is_empty();
                match &e {
                    Expr::If(f) if Jumps::of(&f.cond).tries == 0 => {
                        let tb = f.then_branch.stmts.clone();
                        let eb: Vec<Stmt> = f.else_branch.as_ref().map(|x| as_stmts(&x.1)).unwrap_or_default();
                        let (td, ed) = (diverges(&tb), diverges(&eb));
                        if !td && !ed && Jumps::of_stmts(rest).loops > 0 {
                            return None;
                        }
                        let mk = |b: Vec<Stmt>, d: bool, n: &mut usize| -> Option<Vec<Stmt>> {
                            let mut v = b;
                            if !d && !last {
                                if let Some(Stmt::Expr(_, s)) = v.last_mut() {
                                    *s = Some(Default::default());
                                }
                                v.extend(rest.iter().cloned());
                            }
                            un(v, opt, n)
                        };
                        let (a, b) = (mk(tb, td, n)?, mk(eb, ed, n)?);
                        let c = &f.cond;
                        if b.is_empty() {
                            out.push(Stmt::Expr(parse_quote!(if #c { #(#a)* }), None));
                        } else {
                            out.push(Stmt::Expr(parse_quote!(if #c { #(#a)* } else { #(#b)* }), None));
                        }
                        return Some(out);
                    }
                    Expr::Match(m) if Jumps::of(&m.expr).tries == 0 => {
                        let plainarms = m.arms.iter().filter(|a| !diverges(&as_stmts(&a.body))).count();
                        if plainarms > 1 && Jumps::of_stmts(rest).loops > 0 {
                            return None;
                        }
                        let mut m2 = m.clone();
                        for a in m2.arms.iter_mut() {
                            let mut b = as_stmts(&a.body);
                            if !diverges(&b) && !last {
                                if let Some(Stmt::Expr(_, s)) = b.last_mut() {
                                    *s = Some(Default::default());
                                }
                                b.extend(rest.iter().cloned());
                            }
                            let v = un(b, opt, n)?;
                            *a.body = parse_quote!({ #(#v)* });
                            a.comma = None;
                        }
                        out.push(Stmt::Expr(Expr::Match(m2), None));
                        return Some(out);
                    }
                    Expr::Block(b) if b.label.is_none() && last => {
                        let x = un(b.block.stmts.clone(), opt, n)?;
                        out.push(Stmt::Expr(parse_quote!({ #(#x)* }), None));
                        return Some(out);
                    }
                    _ => {}
                }
                let (id, x) = hoist(&mut e, n)?;
                let mut v = vec![];
                // `x?;` leaves nothing to do
                if !(semi.is_some() && ident_of(&e).as_deref() == Some(&id.to_string())) {
                    v.push(Stmt::Expr(e, semi.clone()));
                }
                v.extend(rest.iter().cloned());
                let tail = un(v, opt, n)?;
                out.push(try_(&id, &x, tail));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(out)
}
