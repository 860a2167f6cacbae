//! Printing of tokens and contracts with a map from output lines to their meaning.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub type Blocks = BTreeMap<String, Vec<Piece>>;

/// A piece of contract text.
#[derive(Clone, Debug)]
pub struct Piece {
    pub kind: String,
    pub tags: String,
    pub text: Vec<String>,
}

pub struct Out {
    pub lines: Vec<String>,
    pub src: Vec<usize>,
    pub map: Vec<Value>,
    cur: String,
    cur_src: usize,
    pub func: String,
    pub file: String,
    pub in_fn: bool,
}

impl Out {
    pub fn new() -> Out {
        Out { lines: vec![], src: vec![], map: vec![], cur: String::new(), cur_src: 0, func: String::new(), file: String::new(), in_fn: false }
    }
    pub fn nl(&mut self) {
        if self.cur.trim().is_empty() {
            self.cur.clear();
            return;
        }
        let l = std::mem::take(&mut self.cur);
        self.push_line(l, self.cur_src);
        self.cur_src = 0;
    }
    fn push_line(&mut self, l: String, src: usize) {
        self.lines.push(l);
        self.src.push(src);
        if src > 0 && self.in_fn {
            let n = self.lines.len();
            self.map.push(json!({"line": n, "end": n, "kind": "code", "fn": self.func, "file": self.file, "src": src}));
        }
    }
    pub fn raw(&mut self, s: &str) {
        self.nl();
        for l in s.lines() {
            self.lines.push(l.to_string());
            self.src.push(0);
        }
    }
    pub fn piece(&mut self, p: &Piece, indent: usize) {
        self.nl();
        let a = self.lines.len() + 1;
        for l in &p.text {
            self.lines.push(format!("{}{}", "    ".repeat(indent), l));
            self.src.push(0);
        }
        let b = self.lines.len();
        self.map.push(json!({"line": a, "end": b, "kind": p.kind, "fn": self.func, "tags": p.tags, "text": p.text.iter().map(|s| s.trim()).collect::<Vec<_>>().join(" ")}));
    }
    pub fn tokens(&mut self, ts: TokenStream, blocks: &Blocks, brace: bool) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(id) if (id == "__ghost" || id == "__loop_spec") && i + 2 < v.len() => {
                    if let TokenTree::Group(g) = &v[i + 2] {
                        let key = g.stream().to_string().replace(' ', "").replace('"', "");
                        self.nl();
                        if id == "__ghost" {
                            if let Some(ps) = blocks.get(&key) {
                                for p in ps.clone() {
                                    self.piece(&p, 2);
                                }
                            }
                        }
                        i += 3;
                        if i < v.len() && v[i].to_string() == ";" {
                            i += 1;
                        }
                        continue;
                    }
                }
                _ => {}
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        let inner: Vec<TokenTree> = g.stream().into_iter().take(3).collect();
                        if inner.len() == 3 && inner[0].to_string() == "__loop_spec" {
                            if let TokenTree::Group(k) = &inner[2] {
                                let key = k.stream().to_string().replace(' ', "").replace('"', "");
                                if let Some(ps) = blocks.get(&key) {
                                    for p in ps.clone() {
                                        self.piece(&p, 2);
                                    }
                                }
                            }
                        }
                        self.cur.push_str("{ ");
                        self.nl();
                        self.tokens(g.stream(), blocks, true);
                        self.nl();
                        self.cur.push_str("} ");
                        if let Some(n) = v.get(i + 1) {
                            let n = n.to_string();
                            if brace && n != "else" && n != "." && n != "," && n != ";" && n != "?" && n != ")" {
                                self.nl();
                            }
                        }
                    } else {
                        self.cur.push_str(o);
                        self.tokens(g.stream(), blocks, false);
                        self.cur.push_str(c);
                        self.cur.push(' ');
                    }
                }
                TokenTree::Punct(p) => {
                    self.see(p.span());
                    self.cur.push(p.as_char());
                    if p.spacing() == Spacing::Alone {
                        self.cur.push(' ');
                    }
                    if p.as_char() == ';' && brace {
                        self.nl();
                    }
                    if p.as_char() == ',' && brace && self.cur.len() > 100 {
                        self.nl();
                    }
                }
                t => {
                    self.see(t.span());
                    self.cur.push_str(&t.to_string());
                    self.cur.push(' ');
                }
            }
            i += 1;
        }
    }
    fn see(&mut self, s: proc_macro2::Span) {
        let l = s.start().line;
        if l > 0 && s.start() != s.end() && self.cur_src == 0 {
            self.cur_src = l;
        }
    }
}
