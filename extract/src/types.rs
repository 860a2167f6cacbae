//! Mapping of types, bounds and paths into the verified subset, plus a light type inference.
use quote::ToTokens;
use std::collections::HashMap;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub const DROPPED_BOUNDS: &[&str] = &["Debug", "Any", "Hash", "Send", "Sync", "Display"];

#[derive(Default)]
pub struct TypeMap {
    /// the file stays a module of its own: `crate::X` is kept (as `root::X`)
    pub module: bool,
    /// `str` and `String` are one type
    pub texts: bool,
    /// what the file's `BinType` stands for
    pub bin: String,
}

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn keep_bound(b: &TypeParamBound) -> bool {
    match b {
        TypeParamBound::Trait(t) => {
            let l = t.path.segments.last().unwrap().ident.to_string();
            !DROPPED_BOUNDS.contains(&l.as_str())
        }
        _ => true,
    }
}

fn filter_bounds(p: &mut Punctuated<TypeParamBound, Token![+]>) {
    let old = std::mem::replace(p, Punctuated::new());
    for b in old {
        if keep_bound(&b) {
            p.push(b);
        }
    }
}

fn strip_prefix(p: &mut Path) {
    const MODS: &[&str] = &[
        "crate", "super", "self", "internal", "fmt", "cache", "canning", "blueprint", "diagnostics", "utils",
    ];
    if p.segments.len() == 3 && p.segments[1].ident == "marker" && p.segments[2].ident == "Unsize" {
        p.segments = p.segments.iter().skip(2).cloned().collect();
        p.leading_colon = None;
    }
    while p.segments.len() > 1 {
        let f = p.segments.first().unwrap();
        let n = f.ident.to_string();
        if MODS.contains(&n.as_str()) && f.arguments.is_empty() {
            let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
            p.segments = rest.into_iter().collect();
            p.leading_colon = None;
        } else {
            break;
        }
    }
}

impl VisitMut for TypeMap {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = toks(t);
        let s = if self.module && s.starts_with("BinType<") && !self.bin.is_empty() { s.replacen("BinType", &self.bin, 1) } else { s };
        let m = match s.as_str() {
            "Box<dynAny>" => Some("BoxAny"),
            "Rc<dynAny>" => Some("RcAny"),
            "Arc<dynAny+Send+Sync>" => Some("ArcAny"),
            "WeakRc<dynAny>" | "Weak<dynAny>" => Some("WeakRcAny"),
            "WeakArc<dynAny+Send+Sync>" => Some("WeakArcAny"),
            "*constdynAny" => Some("DynPtr"),
            "*const()" => Some("ThinPtr"),
            _ => None,
        };
        let m = if self.texts && m.is_none() && matches!(s.as_str(), "str" | "String" | "std::string::String") { Some("Str") } else { m };
        if let Some(m) = m {
            *t = parse_str(m).unwrap();
            return;
        }
        if let Type::TraitObject(o) = t {
            if let Some(TypeParamBound::Trait(tb)) = o.bounds.first() {
                let l = tb.path.segments.last().unwrap();
                let name = l.ident.to_string();
                if name == "Builder" {
                    if let PathArguments::AngleBracketed(a) = &l.arguments {
                        let mut pos: Vec<Type> = vec![];
                        let mut named: HashMap<String, Type> = HashMap::new();
                        for g in &a.args {
                            match g {
                                GenericArgument::Type(t) => pos.push(t.clone()),
                                GenericArgument::AssocType(x) => {
                                    named.insert(x.ident.to_string(), x.ty.clone());
                                }
                                _ => {}
                            }
                        }
                        let (a0, a1) = (pos[0].clone(), pos[1].clone());
                        let (x, e, d) = (named["Artifact"].clone(), named["Err"].clone(), named["DynState"].clone());
                        *t = parse_quote!(DynBuilder<#a0, #a1, #x, #e, #d>);
                    }
                } else if name == "Doctor" {
                    let args = &l.arguments;
                    *t = parse_quote!(DynDoctor #args);
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if self.texts && toks(p) == "fmt::Result" {
            *p = parse_quote!(FmtResult);
        }
        if self.texts && p.segments.len() >= 2 && p.segments[p.segments.len() - 2].ident == "String" {
            let n = p.segments.len() - 2;
            p.segments[n].ident = Ident::new("Str", proc_macro2::Span::call_site());
        }
        if self.module && p.segments.len() == 2 && p.segments[0].ident == "crate" {
            p.segments[0].ident = Ident::new("root", proc_macro2::Span::call_site());
        } else {
            strip_prefix(p);
        }
        // the smart pointers by their short names
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if s.len() == 3 && s[0] == "std" && ["rc::Rc", "sync::Arc", "boxed::Box"].contains(&format!("{}::{}", s[1], s[2]).as_str()) {
            p.segments = p.segments.iter().skip(2).cloned().collect();
            p.leading_colon = None;
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        let n = p.path.segments.len();
        visit_mut::visit_type_path_mut(self, p);
        if let Some(q) = &mut p.qself {
            q.position -= (n - p.path.segments.len()).min(q.position);
        }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        let n = p.path.segments.len();
        visit_mut::visit_expr_path_mut(self, p);
        if let Some(q) = &mut p.qself {
            q.position -= (n - p.path.segments.len()).min(q.position);
        }
    }
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                filter_bounds(&mut t.bounds);
                if t.bounds.is_empty() {
                    t.colon_token = None;
                }
            }
        }
        if let Some(w) = &mut g.where_clause {
            let old = std::mem::replace(&mut w.predicates, Punctuated::new());
            for mut p in old {
                if let WherePredicate::Type(t) = &mut p {
                    filter_bounds(&mut t.bounds);
                    if t.bounds.is_empty() {
                        continue;
                    }
                }
                w.predicates.push(p);
            }
        }
        if g.where_clause.as_ref().map(|w| w.predicates.is_empty()).unwrap_or(false) {
            g.where_clause = None;
        }
        visit_mut::visit_generics_mut(self, g);
    }
    fn visit_item_trait_mut(&mut self, t: &mut ItemTrait) {
        filter_bounds(&mut t.supertraits);
        if t.supertraits.is_empty() {
            t.colon_token = None;
        }
        visit_mut::visit_item_trait_mut(self, t);
    }
    fn visit_trait_item_type_mut(&mut self, t: &mut TraitItemType) {
        filter_bounds(&mut t.bounds);
        if t.bounds.is_empty() {
            t.colon_token = None;
        }
        visit_mut::visit_trait_item_type_mut(self, t);
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}

/// Simplified types of the inference.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Unknown,
    P(String, Vec<T>),
    R(Box<T>),
}

impl T {
    pub fn of(t: &Type, selfty: &str) -> T {
        match t {
            Type::Reference(r) => T::R(Box::new(T::of(&r.elem, selfty))),
            Type::Paren(p) => T::of(&p.elem, selfty),
            Type::Group(p) => T::of(&p.elem, selfty),
            Type::Path(p) if p.qself.is_none() => {
                let l = p.path.segments.last().unwrap();
                let mut args = vec![];
                if let PathArguments::AngleBracketed(a) = &l.arguments {
                    for g in &a.args {
                        if let GenericArgument::Type(t) = g {
                            args.push(T::of(t, selfty));
                        }
                    }
                }
                let mut n = l.ident.to_string();
                if p.path.segments.len() > 1 {
                    n = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                }
                if n == "Self" {
                    n = selfty.to_string();
                }
                T::P(n, args)
            }
            _ => T::Unknown,
        }
    }
    pub fn deref(&self) -> &T {
        let mut t = self;
        while let T::R(i) = t {
            t = i;
        }
        t
    }
    pub fn is(&self, n: &str) -> bool {
        matches!(self.deref(), T::P(m, _) if m == n)
    }
    pub fn arg(&self, i: usize) -> T {
        match self.deref() {
            T::P(_, a) => a.get(i).cloned().unwrap_or(T::Unknown),
            _ => T::Unknown,
        }
    }
    pub fn p(n: &str, a: Vec<T>) -> T {
        T::P(n.to_string(), a)
    }
}

/// Global declarations known to the inference.
#[derive(Default)]
pub struct Decls {
    /// struct -> field -> type
    pub fields: HashMap<String, HashMap<String, Type>>,
    /// (type or trait, function) -> return type
    pub fns: HashMap<(String, String), Type>,
    /// function name -> return types
    pub by_name: HashMap<String, Vec<Type>>,
}
