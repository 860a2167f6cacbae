//! Conditional compilation: evaluates `#[cfg(..)]`, expands `cfg_if!` and removes doc comments and attributes.
use proc_macro2::TokenStream;
use std::collections::HashSet;
use syn::parse::{Parse, ParseStream, Parser};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Cfg {
    pub features: HashSet<String>,
}

impl Cfg {
    fn meta(&self, m: &Meta) -> bool {
        match m {
            Meta::Path(p) => match p.get_ident().map(|i| i.to_string()).as_deref() {
                Some("test") => false,
                Some("debug_assertions") => true,
                Some("unix") => true,
                _ => false,
            },
            Meta::NameValue(nv) => {
                if nv.path.is_ident("feature") {
                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                        return self.features.contains(&s.value());
                    }
                }
                false
            }
            Meta::List(l) => {
                let subs: Vec<Meta> = l
                    .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                    .map(|p| p.into_iter().collect())
                    .unwrap_or_default();
                match l.path.get_ident().map(|i| i.to_string()).as_deref() {
                    Some("not") => !subs.first().map(|m| self.meta(m)).unwrap_or(false),
                    Some("all") => subs.iter().all(|m| self.meta(m)),
                    Some("any") => subs.iter().any(|m| self.meta(m)),
                    _ => false,
                }
            }
        }
    }

    /// The predicate as an expression over `v_debug()`, whether debug assertions are on.
    fn formula(&self, m: &Meta) -> Expr {
        match m {
            Meta::Path(p) if p.is_ident("debug_assertions") => parse_quote!(v_debug()),
            Meta::List(l) if !l.path.is_ident("feature") => {
                let subs: Vec<Expr> = l
                    .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                    .map(|p| p.iter().map(|m| self.formula(m)).collect())
                    .unwrap_or_default();
                match l.path.get_ident().map(|i| i.to_string()).as_deref() {
                    Some("not") if subs.len() == 1 => {
                        let a = &subs[0];
                        parse_quote!(!(#a))
                    }
                    Some("all") => subs.iter().fold(parse_quote!(true), |a: Expr, b| parse_quote!((#a) && (#b))),
                    Some("any") => subs.iter().fold(parse_quote!(false), |a: Expr, b| parse_quote!((#a) || (#b))),
                    _ => parse_quote!(false),
                }
            }
            _ => {
                if self.meta(m) {
                    parse_quote!(true)
                } else {
                    parse_quote!(false)
                }
            }
        }
    }

    /// A statement that is there only with or only without debug assertions: the condition.
    fn by_mode(&self, attrs: &mut Vec<Attribute>) -> Option<Expr> {
        let mut c: Option<Expr> = None;
        attrs.retain(|a| {
            if a.path().is_ident("cfg") && quote::quote!(#a).to_string().contains("debug_assertions") {
                if let Ok(m) = a.parse_args::<Meta>() {
                    let f = self.formula(&m);
                    c = Some(match c.take() {
                        Some(d) => parse_quote!((#d) && (#f)),
                        None => f,
                    });
                    return false;
                }
            }
            true
        });
        c
    }

    /// Evaluates and removes the attributes. Returns whether the item remains.
    pub fn keep(&self, attrs: &mut Vec<Attribute>) -> bool {
        let mut ok = true;
        for a in attrs.iter() {
            if a.path().is_ident("cfg") {
                if let Ok(m) = a.parse_args::<Meta>() {
                    ok &= self.meta(&m);
                }
            }
        }
        attrs.retain(|a| a.path().is_ident("derive"));
        ok
    }

    /// Splits a `cfg_if!` body and returns the tokens of the selected branch.
    fn select(&self, ts: TokenStream) -> TokenStream {
        let p = |input: ParseStream| -> Result<TokenStream> {
            let mut result: Option<TokenStream> = None;
            loop {
                if input.is_empty() {
                    break;
                }
                if input.peek(Token![if]) {
                    input.parse::<Token![if]>()?;
                    let attrs = input.call(Attribute::parse_outer)?;
                    let body;
                    braced!(body in input);
                    let b: TokenStream = body.parse()?;
                    let mut at = attrs;
                    if result.is_none() && self.keep(&mut at) {
                        result = Some(b);
                    }
                } else {
                    let body;
                    braced!(body in input);
                    let b: TokenStream = body.parse()?;
                    if result.is_none() {
                        result = Some(b);
                    }
                }
                if input.peek(Token![else]) {
                    input.parse::<Token![else]>()?;
                }
            }
            Ok(result.unwrap_or_default())
        };
        p.parse2(ts).unwrap_or_default()
    }

    pub fn items(&self, items: Vec<Item>) -> Vec<Item> {
        let mut out = Vec::new();
        for mut it in items {
            if let Item::Macro(m) = &it {
                if is_cfg_if(&m.mac) {
                    let f: Items = parse2(self.select(m.mac.tokens.clone())).expect("cfg_if items");
                    out.extend(self.items(f.0));
                    continue;
                }
            }
            if let Some(a) = item_attrs(&mut it) {
                if !self.keep(a) {
                    continue;
                }
            }
            if let Item::Mod(m) = &mut it {
                if let Some((_, c)) = &mut m.content {
                    *c = self.items(std::mem::take(c));
                }
            }
            let mut s = self.clone_ref();
            s.visit_item_mut(&mut it);
            out.push(it);
        }
        out
    }

    fn clone_ref(&self) -> Cfg {
        Cfg { features: self.features.clone() }
    }

    fn impl_items(&self, items: Vec<ImplItem>) -> Vec<ImplItem> {
        let mut out = Vec::new();
        for mut it in items {
            if let ImplItem::Macro(m) = &it {
                if is_cfg_if(&m.mac) {
                    let f: ImplItems = parse2(self.select(m.mac.tokens.clone())).expect("cfg_if impl items");
                    out.extend(self.impl_items(f.0));
                    continue;
                }
            }
            let ok = match &mut it {
                ImplItem::Fn(f) => self.keep(&mut f.attrs),
                ImplItem::Type(f) => self.keep(&mut f.attrs),
                ImplItem::Const(f) => self.keep(&mut f.attrs),
                _ => true,
            };
            if ok {
                out.push(it);
            }
        }
        out
    }

    fn stmts(&self, stmts: Vec<Stmt>) -> Vec<Stmt> {
        let mut out = Vec::new();
        for mut s in stmts {
            let mac = match &s {
                Stmt::Macro(m) if is_cfg_if(&m.mac) => Some(m.mac.tokens.clone()),
                Stmt::Expr(Expr::Macro(m), _) if is_cfg_if(&m.mac) => Some(m.mac.tokens.clone()),
                _ => None,
            };
            if let Some(t) = mac {
                let sel = self.select(t);
                let inner = Block::parse_within.parse2(sel).expect("cfg_if stmts");
                out.extend(self.stmts(inner));
                continue;
            }
            let mode = match &mut s {
                Stmt::Expr(e, _) => expr_attrs(e).and_then(|a| self.by_mode(a)),
                Stmt::Macro(m) => self.by_mode(&mut m.attrs),
                _ => None,
            };
            let ok = match &mut s {
                Stmt::Local(l) => self.keep(&mut l.attrs),
                Stmt::Expr(e, _) => expr_attrs(e).map(|a| self.keep(a)).unwrap_or(true),
                Stmt::Macro(m) => self.keep(&mut m.attrs),
                Stmt::Item(i) => !matches!(i, Item::Use(_)),
            };
            if ok {
                if let Some(c) = mode {
                    s = Stmt::Expr(parse_quote!(if #c { #s }), None);
                }
                out.push(s);
            }
        }
        out
    }
}

struct Items(Vec<Item>);
impl Parse for Items {
    fn parse(input: ParseStream) -> Result<Self> {
        let mut v = Vec::new();
        while !input.is_empty() {
            v.push(input.parse()?);
        }
        Ok(Items(v))
    }
}
struct ImplItems(Vec<ImplItem>);
impl Parse for ImplItems {
    fn parse(input: ParseStream) -> Result<Self> {
        let mut v = Vec::new();
        while !input.is_empty() {
            v.push(input.parse()?);
        }
        Ok(ImplItems(v))
    }
}

fn is_cfg_if(m: &Macro) -> bool {
    m.path.segments.last().map(|s| s.ident == "cfg_if").unwrap_or(false)
}

fn expr_attrs(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    Some(match e {
        Expr::Assign(x) => &mut x.attrs,
        Expr::Block(x) => &mut x.attrs,
        Expr::Call(x) => &mut x.attrs,
        Expr::MethodCall(x) => &mut x.attrs,
        Expr::If(x) => &mut x.attrs,
        Expr::ForLoop(x) => &mut x.attrs,
        Expr::While(x) => &mut x.attrs,
        Expr::Loop(x) => &mut x.attrs,
        Expr::Match(x) => &mut x.attrs,
        Expr::Macro(x) => &mut x.attrs,
        Expr::Return(x) => &mut x.attrs,
        Expr::Path(x) => &mut x.attrs,
        Expr::Field(x) => &mut x.attrs,
        Expr::Reference(x) => &mut x.attrs,
        _ => return None,
    })
}

fn item_attrs(i: &mut Item) -> Option<&mut Vec<Attribute>> {
    Some(match i {
        Item::Const(x) => &mut x.attrs,
        Item::Enum(x) => &mut x.attrs,
        Item::Fn(x) => &mut x.attrs,
        Item::Impl(x) => &mut x.attrs,
        Item::Macro(x) => &mut x.attrs,
        Item::Mod(x) => &mut x.attrs,
        Item::Static(x) => &mut x.attrs,
        Item::Struct(x) => &mut x.attrs,
        Item::Trait(x) => &mut x.attrs,
        Item::Type(x) => &mut x.attrs,
        Item::Use(x) => &mut x.attrs,
        _ => return None,
    })
}

fn filter<T: Clone, P: Default + Clone>(c: &Cfg, p: &mut punctuated::Punctuated<T, P>, f: fn(&mut T) -> Option<&mut Vec<Attribute>>) {
    let old = std::mem::replace(p, punctuated::Punctuated::new());
    for mut t in old {
        let ok = f(&mut t).map(|a| c.keep(a)).unwrap_or(true);
        if ok {
            p.push(t);
        }
    }
}

impl VisitMut for Cfg {
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        filter(self, &mut g.params, |p| match p {
            GenericParam::Type(t) => Some(&mut t.attrs),
            GenericParam::Lifetime(t) => Some(&mut t.attrs),
            GenericParam::Const(t) => Some(&mut t.attrs),
        });
        visit_mut::visit_generics_mut(self, g);
    }
    fn visit_signature_mut(&mut self, s: &mut Signature) {
        filter(self, &mut s.inputs, |p| match p {
            FnArg::Receiver(r) => Some(&mut r.attrs),
            FnArg::Typed(t) => Some(&mut t.attrs),
        });
        visit_mut::visit_signature_mut(self, s);
    }
    fn visit_fields_named_mut(&mut self, f: &mut FieldsNamed) {
        filter(self, &mut f.named, |p| Some(&mut p.attrs));
        visit_mut::visit_fields_named_mut(self, f);
    }
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        filter(self, &mut e.fields, |p| Some(&mut p.attrs));
        visit_mut::visit_expr_struct_mut(self, e);
    }
    fn visit_expr_call_mut(&mut self, e: &mut ExprCall) {
        filter(self, &mut e.args, expr_attrs);
        visit_mut::visit_expr_call_mut(self, e);
    }
    fn visit_expr_method_call_mut(&mut self, e: &mut ExprMethodCall) {
        filter(self, &mut e.args, expr_attrs);
        visit_mut::visit_expr_method_call_mut(self, e);
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        i.items = self.impl_items(std::mem::take(&mut i.items));
        visit_mut::visit_item_impl_mut(self, i);
    }
    fn visit_item_trait_mut(&mut self, i: &mut ItemTrait) {
        let old = std::mem::take(&mut i.items);
        for mut t in old {
            let ok = match &mut t {
                TraitItem::Fn(f) => self.keep(&mut f.attrs),
                TraitItem::Type(f) => self.keep(&mut f.attrs),
                _ => true,
            };
            if ok {
                i.items.push(t);
            }
        }
        visit_mut::visit_item_trait_mut(self, i);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain_mut(|a| self.keep(&mut a.attrs));
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("cfg") {
                if let Ok(x) = m.mac.parse_body::<Meta>() {
                    *e = self.formula(&x);
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts = self.stmts(std::mem::take(&mut b.stmts));
        visit_mut::visit_block_mut(self, b);
    }
}
