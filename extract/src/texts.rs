//! Expansion of the formatting macros: a format string becomes the sequence of the texts it puts out.
use syn::parse::{Parse, ParseStream};
use syn::*;
use quote::{format_ident, quote};
use proc_macro2::{Ident, Span, TokenStream};

/// A text as a ghost sequence.
pub fn chain(s: &str) -> Expr {
    let mut e: TokenStream = quote!(Seq::<char>::empty());
    for c in s.chars() {
        let l = LitChar::new(c, Span::call_site());
        e = quote!(#e.push(#l));
    }
    parse_quote!(#e)
}

enum Seg {
    Lit(String),
    /// argument, kind
    Arg(usize, &'static str),
}

struct Args {
    dst: Option<Expr>,
    fmt: LitStr,
    pos: Vec<Expr>,
    named: Vec<(String, Expr)>,
}

fn parse_args(input: ParseStream, with_dst: bool) -> Result<Args> {
    let mut a = Args { dst: None, fmt: LitStr::new("", Span::call_site()), pos: vec![], named: vec![] };
    if with_dst {
        a.dst = Some(input.parse()?);
        if input.is_empty() {
            return Ok(a);
        }
        input.parse::<Token![,]>()?;
        if input.is_empty() {
            return Ok(a);
        }
    }
    a.fmt = input.parse()?;
    while !input.is_empty() {
        input.parse::<Token![,]>()?;
        if input.is_empty() {
            break;
        }
        if input.peek(syn::Ident) && input.peek2(Token![=]) && !input.peek2(Token![==]) {
            let n: Ident = input.parse()?;
            input.parse::<Token![=]>()?;
            a.named.push((n.to_string(), Parse::parse(input)?));
        } else {
            a.pos.push(Parse::parse(input)?);
        }
    }
    Ok(a)
}

fn parse_fmt(f: &str, a: &Args, exprs: &mut Vec<Expr>) -> Option<Vec<Seg>> {
    let cs: Vec<char> = f.chars().collect();
    let mut out = vec![];
    let mut lit = String::new();
    let mut next = 0;
    let mut i = 0;
    let mut captured: Vec<(String, usize)> = a.named.iter().enumerate().map(|(k, (n, _))| (n.clone(), a.pos.len() + k)).collect();
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => {
                lit.push('{');
                i += 2;
            }
            '}' if cs.get(i + 1) == Some(&'}') => {
                lit.push('}');
                i += 2;
            }
            '{' => {
                let e = i + cs[i..].iter().position(|c| *c == '}')?;
                let inner: String = cs[i + 1..e].iter().collect();
                i = e + 1;
                let (arg, spec) = inner.split_once(':').unwrap_or((&inner, ""));
                let kind = match spec.trim_end() {
                    "" => "v_disp",
                    "?" => "v_dbg",
                    "#?" => "v_dbg_alt",
                    "p" => "v_pt",
                    _ => return None,
                };
                let arg = arg.trim();
                let k = if arg.is_empty() {
                    next += 1;
                    next - 1
                } else if let Ok(n) = arg.parse::<usize>() {
                    n
                } else if let Some((_, k)) = captured.iter().find(|x| x.0 == arg) {
                    *k
                } else {
                    let id = format_ident!("{}", arg);
                    exprs.push(parse_quote!(#id));
                    captured.push((arg.to_string(), exprs.len() - 1));
                    exprs.len() - 1
                };
                if k >= exprs.len() {
                    return None;
                }
                if !lit.is_empty() {
                    out.push(Seg::Lit(std::mem::take(&mut lit)));
                }
                out.push(Seg::Arg(k, kind));
            }
            '}' => return None,
            c => {
                lit.push(c);
                i += 1;
            }
        }
    }
    if !lit.is_empty() {
        out.push(Seg::Lit(lit));
    }
    Some(out)
}

/// `write!`, `writeln!` and `format!`.
pub fn expand(name: &str, mac: &Macro, mut tmp: impl FnMut(&str) -> Ident) -> Option<Expr> {
    let with_dst = name != "format";
    let a = mac.parse_body_with(|i: ParseStream| parse_args(i, with_dst)).ok()?;
    let mut exprs: Vec<Expr> = a.pos.iter().cloned().chain(a.named.iter().map(|x| x.1.clone())).collect();
    let mut f = a.fmt.value();
    if name == "writeln" {
        f.push('\n');
    }
    let segs = parse_fmt(&f, &a, &mut exprs)?;
    let w = tmp("w");
    let ids: Vec<Ident> = exprs.iter().map(|_| tmp("p")).collect();
    let mut st: Vec<Stmt> = vec![];
    let begin: Expr = match &a.dst {
        Some(d) => parse_quote!((#d).v_w()),
        None => parse_quote!(Str::new()),
    };
    if a.dst.is_some() {
        st.push(parse_quote!(let #w = #begin;));
    } else {
        st.push(parse_quote!(let mut #w = #begin;));
    }
    for (n, e) in ids.iter().zip(exprs.iter()) {
        st.push(parse_quote!(let #n = &(#e);));
    }
    for s in &segs {
        match s {
            Seg::Lit(t) => {
                let c = chain(t);
                st.push(parse_quote!(#w.v_lit(Ghost(#c));));
            }
            Seg::Arg(k, m) => {
                let n = &ids[*k];
                let m = format_ident!("{}", m);
                st.push(parse_quote!(#w.#m(#n);));
            }
        }
    }
    let end: Expr = if a.dst.is_some() { parse_quote!(v_written()) } else { parse_quote!(#w) };
    Some(parse_quote!({ #(#st)* #end }))
}
